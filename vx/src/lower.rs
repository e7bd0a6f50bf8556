//! Mechanical lowering of a function body from the repository into the Verus dialect.
//!
//! What the lowering changes (and nothing else):
//!  * `f64`/`Float` literals, casts and consts become values of the exact-real `Float` of the prelude;
//!  * `for` loops and iterator chains become index `while` loops (closures are inlined);
//!  * compound assignment, slice patterns, `while let`, `vec!`, `assert!` and a few std macros are
//!    rewritten to equivalent forms; `dbg!`/`println!` are dropped;
//!  * module paths are flattened; repository consts are replaced by their initialisers;
//!  * calls to repository functions that have no contract in the unit are replaced by their bodies.
use crate::source::*;
use proc_macro2::{Ident, Span, TokenStream as TS};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use syn::*;

pub type R<T> = std::result::Result<T, String>;

#[derive(Clone)]
pub enum Item {
    Expr(TS),
    Ref(TS),
    Tuple(Vec<Item>),
}
impl Item {
    fn ts(&self) -> TS {
        match self {
            Item::Expr(t) => t.clone(),
            Item::Ref(t) => quote!(&#t),
            Item::Tuple(v) => {
                let v: Vec<TS> = v.iter().map(|i| i.ts()).collect();
                quote!((#(#v),*))
            }
        }
    }
    fn refof(&self) -> Item {
        let t = self.ts();
        match self {
            Item::Tuple(v) => Item::Tuple(v.iter().map(|i| i.refof()).collect()),
            _ => Item::Ref(quote!((#t))),
        }
    }
}

enum Op<'a> {
    Map(&'a ExprClosure),
    Filter(&'a ExprClosure),
    FilterMap(&'a ExprClosure),
    TakeWhile(&'a ExprClosure),
    Flatten,
    FlatMap(&'a ExprClosure),
}

type ItemFn = Rc<dyn Fn(&TS) -> Item>;
struct Indexed {
    len: Option<TS>, // None: infinite
    item: ItemFn,
    rev: bool,
}
enum Base {
    Range { lo: TS, hi: TS, incl: bool, rev: bool },
    Idx(Indexed),
}
struct Stream<'a> {
    pre: TS,
    base: Base,
    ops: Vec<Op<'a>>,
}

#[derive(Clone, Default, Debug)]
pub struct LoopInfo {
    pub id: String,
    pub alias: BTreeMap<String, String>,
    pub auto: Vec<String>,
    pub decreases: Option<String>,
    pub line: usize,
}

pub struct Ctx<'a> {
    pub src: &'a Source,
    pub contracted: &'a HashSet<String>,
    pub prelude_fns: &'a HashSet<String>,
    pub noinline: &'a HashSet<String>,
    pub key: String,
    pub self_base: Option<String>,
    pub path: Vec<usize>,
    pub counters: Vec<usize>,
    pub loops: Vec<LoopInfo>,
    pub kinds: HashMap<String, &'static str>,
    pub subst: HashMap<String, Type>,
    pub notes: Vec<String>,
    pub inlined: Vec<String>,
    pub inline_stack: Vec<String>,
    pub fresh: usize,
    pub dedups: usize,
    pub sorts: usize,
    pub has_return_ghost: bool,
    pub hints: HashMap<String, String>,
    pub self_rename: Option<Ident>,
    pub ret_into: Option<String>,
    pub renames: HashMap<String, String>,
}

fn id(s: &str) -> Ident {
    Ident::new(s, Span::call_site())
}

fn last_seg(p: &syn::Path) -> String {
    p.segments.last().unwrap().ident.to_string()
}

fn real_lit(s: &str) -> R<String> {
    // normalise a Rust float literal to a plain decimal
    let s = s.replace('_', "");
    let (mant, exp) = match s.find(|c| c == 'e' || c == 'E') {
        Some(i) => (s[..i].to_string(), s[i + 1..].parse::<i64>().map_err(|e| e.to_string())?),
        None => (s.clone(), 0),
    };
    let (ip, fp) = match mant.split_once('.') {
        Some((a, b)) => (a.to_string(), b.to_string()),
        None => (mant.clone(), String::new()),
    };
    let digits = format!("{}{}", ip, fp);
    let point = ip.len() as i64 + exp;
    let (ip, fp) = if point <= 0 {
        ("0".to_string(), format!("{}{}", "0".repeat((-point) as usize), digits))
    } else if point as usize >= digits.len() {
        (format!("{}{}", digits, "0".repeat(point as usize - digits.len())), "0".to_string())
    } else {
        (digits[..point as usize].to_string(), digits[point as usize..].to_string())
    };
    let ip = ip.trim_start_matches('0');
    let ip = if ip.is_empty() { "0" } else { ip };
    let fp = if fp.is_empty() { "0".to_string() } else { fp };
    Ok(format!("{}.{}", ip, fp))
}

fn is_block_like(e: &Expr) -> bool {
    matches!(
        e,
        Expr::If(_) | Expr::Match(_) | Expr::Block(_) | Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_) | Expr::Unsafe(_)
    )
}

pub fn contains_return_expr(e: &Expr) -> bool {
    struct V(bool);
    impl<'a> visit::Visit<'a> for V {
        fn visit_expr_return(&mut self, _: &'a ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut v = V(false);
    visit::Visit::visit_expr(&mut v, e);
    v.0
}
fn contains_return_stmt(s: &Stmt) -> bool {
    match s {
        Stmt::Expr(e, _) => contains_return_expr(e),
        Stmt::Local(l) => l.init.as_ref().map_or(false, |i| contains_return_expr(&i.expr)),
        _ => false,
    }
}

/// turn a block whose control flow uses `return` into an expression block without `return`
pub fn elim_returns(b: &Block) -> R<Block> {
    let stmts = elim_stmts(&b.stmts)?;
    Ok(Block { brace_token: b.brace_token, stmts })
}
fn blk(stmts: Vec<Stmt>) -> Block {
    Block { brace_token: Default::default(), stmts }
}
fn elim_stmts(stmts: &[Stmt]) -> R<Vec<Stmt>> {
    for (i, s) in stmts.iter().enumerate() {
        if !contains_return_stmt(s) {
            continue;
        }
        let before: Vec<Stmt> = stmts[..i].to_vec();
        let rest: Vec<Stmt> = stmts[i + 1..].to_vec();
        let mut out = before;
        match s {
            Stmt::Expr(Expr::Return(r), _) => {
                match &r.expr {
                    Some(e) => {
                        if contains_return_expr(e) {
                            return Err("return inside return".into());
                        }
                        out.push(Stmt::Expr((**e).clone(), None));
                    }
                    None => {}
                }
                return Ok(out);
            }
            Stmt::Expr(Expr::If(ife), _) => {
                if contains_return_expr(&ife.cond) {
                    return Err("return in condition".into());
                }
                let mut t: Vec<Stmt> = ife.then_branch.stmts.clone();
                normalize_tail(&mut t, rest.is_empty());
                t.extend(rest.clone());
                let tb = blk(elim_stmts(&t)?);
                let eb = match &ife.else_branch {
                    Some((_, e)) => {
                        let mut es: Vec<Stmt> = match &**e {
                            Expr::Block(b) => b.block.stmts.clone(),
                            other => vec![Stmt::Expr(other.clone(), None)],
                        };
                        normalize_tail(&mut es, rest.is_empty());
                        es.extend(rest.clone());
                        blk(elim_stmts(&es)?)
                    }
                    None => blk(elim_stmts(&rest)?),
                };
                let mut ni = ife.clone();
                ni.then_branch = tb;
                ni.else_branch = Some((Default::default(), Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: eb }))));
                out.push(Stmt::Expr(Expr::If(ni), None));
                return Ok(out);
            }
            Stmt::Expr(Expr::Match(m), _) => {
                let mut nm = m.clone();
                for arm in nm.arms.iter_mut() {
                    let mut es: Vec<Stmt> = match &*arm.body {
                        Expr::Block(b) => b.block.stmts.clone(),
                        other => vec![Stmt::Expr(other.clone(), None)],
                    };
                    normalize_tail(&mut es, rest.is_empty());
                    es.extend(rest.clone());
                    let b = blk(elim_stmts(&es)?);
                    arm.body = Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: b }));
                }
                out.push(Stmt::Expr(Expr::Match(nm), None));
                return Ok(out);
            }
            Stmt::Expr(Expr::Block(b), _) => {
                let mut es = b.block.stmts.clone();
                normalize_tail(&mut es, rest.is_empty());
                es.extend(rest);
                out.extend(elim_stmts(&es)?);
                return Ok(out);
            }
            Stmt::Expr(l @ (Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_)), _) => {
                // leave the loop with the value, then go on with the rest only if there is none
                let mut nl = l.clone();
                ret_to_break(&mut nl, 0)?;
                let rest = blk(elim_stmts(&rest)?);
                out.push(syn::parse_quote!(let mut __ret0 = None;));
                out.push(Stmt::Expr(nl, Some(Default::default())));
                out.push(Stmt::Expr(syn::parse_quote!(match __ret0 { Some(__rv) => __rv, None => #rest }), None));
                return Ok(out);
            }
            _ => return Err("return in unsupported position".into()),
        }
    }
    Ok(stmts.to_vec())
}
/// inside a loop: `return e` becomes `{ __retD = Some(e); break; }`
fn ret_to_break(l: &mut Expr, depth: usize) -> R<()> {
    struct V {
        var: Ident,
        depth: usize,
        err: Option<String>,
    }
    impl V {
        fn inner(&mut self, e: &mut Expr) -> Option<Expr> {
            if !contains_return_expr(e) {
                return None;
            }
            let d = self.depth + 1;
            if let Err(m) = ret_to_break(e, d) {
                self.err = Some(m);
            }
            let (iv, var) = (format_ident!("__ret{}", d), self.var.clone());
            let l = e.clone();
            Some(syn::parse_quote!({ let mut #iv = None; #l; if #iv.is_some() { #var = #iv; break; } }))
        }
    }
    impl syn::visit_mut::VisitMut for V {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            match e {
                Expr::Closure(_) => {}
                Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) => {
                    if let Some(n) = self.inner(e) {
                        *e = n;
                    }
                }
                Expr::Return(r) => {
                    let var = self.var.clone();
                    *e = match &r.expr {
                        Some(x) => syn::parse_quote!({ #var = Some(#x); break; }),
                        None => syn::parse_quote!({ #var = Some(()); break; }),
                    };
                }
                _ => syn::visit_mut::visit_expr_mut(self, e),
            }
        }
    }
    let mut v = V { var: format_ident!("__ret{}", depth), depth, err: None };
    use syn::visit_mut::VisitMut;
    match l {
        Expr::ForLoop(f) => v.visit_block_mut(&mut f.body),
        Expr::While(f) => v.visit_block_mut(&mut f.body),
        Expr::Loop(f) => v.visit_block_mut(&mut f.body),
        _ => return Err("not a loop".into()),
    }
    match v.err {
        Some(e) => Err(e),
        None => Ok(()),
    }
}
/// a unit tail expression that is going to be followed by more statements needs a semicolon
fn normalize_tail(v: &mut Vec<Stmt>, rest_empty: bool) {
    if rest_empty {
        return;
    }
    if let Some(Stmt::Expr(e, semi)) = v.last_mut() {
        if semi.is_none() && !is_block_like(e) && !matches!(e, Expr::Return(_)) {
            *semi = Some(Default::default());
        }
    }
}

impl<'a> Ctx<'a> {
    fn newvar(&mut self, p: &str) -> Ident {
        self.fresh += 1;
        id(&format!("__{}{}", p, self.fresh))
    }

    fn loop_id(&mut self) -> String {
        let c = self.counters.last_mut().unwrap();
        let n = *c;
        *c += 1;
        let mut v: Vec<String> = self.path.iter().map(|x| x.to_string()).collect();
        v.push(n.to_string());
        v.join(".")
    }
    fn enter(&mut self, lid: &str) {
        let n: usize = lid.rsplit('.').next().unwrap().parse().unwrap();
        self.path.push(n);
        self.counters.push(0);
    }
    fn leave(&mut self) {
        self.path.pop();
        self.counters.pop();
    }
    fn suffix(lid: &str) -> String {
        lid.replace('.', "_")
    }

    pub fn ty(&self, t: &Type) -> TS {
        let mut t = t.clone();
        struct V<'b>(&'b HashMap<String, Type>, &'b HashMap<String, String>);
        impl<'b> visit_mut::VisitMut for V<'b> {
            fn visit_type_mut(&mut self, t: &mut Type) {
                if let Type::Reference(r) = t {
                    if matches!(&*r.elem, Type::Path(p) if p.path.is_ident("str")) {
                        *t = syn::parse_quote!(Line);
                        return;
                    }
                }
                if let Type::Path(p) = t {
                    if let Some(i) = p.path.get_ident() {
                        if let Some(n) = self.0.get(&i.to_string()) {
                            *t = n.clone();
                            return;
                        }
                    }
                }
                visit_mut::visit_type_mut(self, t);
            }
            fn visit_path_mut(&mut self, p: &mut syn::Path) {
                while p.segments.len() > 1 {
                    // keep Self::X
                    if p.segments[0].ident == "Self" {
                        break;
                    }
                    let rest: Vec<_> = p.segments.iter().skip(1).cloned().collect();
                    p.segments = rest.into_iter().collect();
                }
                p.leading_colon = None;
                let l = p.segments.last_mut().unwrap();
                if l.ident == "Result" && args_len(&l.arguments) == 1 {
                    l.ident = Ident::new("IoResult", Span::call_site());
                }
                if l.ident == "f64" {
                    l.ident = Ident::new("Float", Span::call_site());
                }
                if l.ident == "VecDeque" {
                    l.ident = Ident::new("Vec", Span::call_site());
                }
                if l.ident == "f32" {
                    l.ident = Ident::new("F32", Span::call_site());
                }
                if let Some(n) = self.1.get(&l.ident.to_string()) {
                    l.ident = Ident::new(n, Span::call_site());
                }
                visit_mut::visit_path_mut(self, p);
            }
        }
        visit_mut::VisitMut::visit_type_mut(&mut V(&self.subst, &self.renames), &mut t);
        t.to_token_stream()
    }

    // ---------------------------------------------------------------- statements

    pub fn block(&mut self, b: &Block) -> R<TS> {
        let s = self.stmts(&b.stmts)?;
        Ok(quote!({ #s }))
    }

    pub fn stmts(&mut self, ss: &[Stmt]) -> R<TS> {
        let mut out = TS::new();
        for s in ss {
            match s {
                Stmt::Local(l) => {
                    let init = match &l.init {
                        Some(i) => {
                            if i.diverge.is_some() {
                                return Err(format!("{}: let-else", self.key));
                            }
                            Some(&*i.expr)
                        }
                        None => None,
                    };
                    out.extend(self.local(&l.pat, init)?);
                }
                Stmt::Expr(e, semi) => {
                    if let (Expr::Macro(m), _) = (e, semi) {
                        if self.drop_macro(&m.mac) {
                            continue;
                        }
                    }
                    let t = self.expr(e)?;
                    out.extend(t);
                    if semi.is_some() {
                        out.extend(quote!(;));
                    }
                }
                Stmt::Macro(m) => {
                    if self.drop_macro(&m.mac) {
                        continue;
                    }
                    let t = self.mac(&m.mac)?;
                    out.extend(quote!(#t ;));
                }
                Stmt::Item(syn::Item::Use(_)) => {}
                Stmt::Item(other) => {
                    return Err(format!("{}: nested item {}", self.key, other.to_token_stream().to_string().chars().take(40).collect::<String>()))
                }
            }
        }
        Ok(out)
    }

    fn drop_macro(&mut self, m: &Macro) -> bool {
        let n = last_seg(&m.path);
        if n == "println" || n == "eprintln" || n == "dbg" || n == "print" {
            self.notes.push(format!("dropped {}!", n));
            return true;
        }
        false
    }

    fn note_kind(&mut self, pat: &Pat, init: &Expr) {
        let name = match pat {
            Pat::Ident(i) => i.ident.to_string(),
            Pat::Type(t) => {
                if let Pat::Ident(i) = &*t.pat {
                    let tys = t.ty.to_token_stream().to_string();
                    if tys.contains("VecDeque") {
                        self.kinds.insert(i.ident.to_string(), "deque");
                    }
                    i.ident.to_string()
                } else {
                    return;
                }
            }
            _ => return,
        };
        let mut e = init;
        loop {
            match e {
                Expr::Call(c) => {
                    if let Expr::Path(p) = &*c.func {
                        let s = p.path.to_token_stream().to_string();
                        if s.contains("VecDeque") {
                            self.kinds.insert(name, "deque");
                        } else if s.contains("Vec ::") || s.contains("Vec::") {
                            self.kinds.insert(name, "vec");
                        }
                    }
                    return;
                }
                Expr::Macro(m) if last_seg(&m.mac.path) == "vec" => {
                    self.kinds.insert(name, "vec");
                    return;
                }
                Expr::MethodCall(m) => {
                    if m.method == "collect" {
                        self.kinds.insert(name, "vec");
                        return;
                    }
                    e = &m.receiver;
                }
                _ => return,
            }
        }
    }

    fn local(&mut self, pat: &Pat, init: Option<&Expr>) -> R<TS> {
        if let (Pat::Tuple(_), Some(Expr::Reference(r))) = (pat, init) {
            if r.mutability.is_none() {
                let i = self.expr(&r.expr)?;
                return self.bind(pat, Item::Ref(quote!(#i)));
            }
        }
        let init_ts = match init {
            Some(e) => {
                self.note_kind(pat, e);
                Some(self.expr(e)?)
            }
            None => None,
        };
        match (pat, init_ts) {
            (Pat::Type(t), i) => {
                let ty = self.ty(&t.ty);
                let p = &t.pat;
                match i {
                    Some(i) => Ok(quote!(let #p : #ty = #i;)),
                    None => Ok(quote!(let #p : #ty;)),
                }
            }
            (Pat::Reference(r), Some(i)) => self.bind(&r.pat, Item::Expr(quote!((*(#i))))),
            (p, Some(i)) => {
                if let Pat::Ident(pi) = p {
                    let m = &pi.mutability;
                    let n = &pi.ident;
                    if let Some(h) = self.hints.get(&n.to_string()) {
                        let t: TS = h.parse().map_err(|_| "hint".to_string())?;
                        return Ok(quote!(let #m #n : #t = #i;));
                    }
                    return Ok(quote!(let #m #n = #i;));
                }
                self.bind(p, Item::Expr(i))
            }
            (p, None) => Ok(quote!(let #p;)),
        }
    }

    fn bind(&mut self, pat: &Pat, item: Item) -> R<TS> {
        match (pat, item) {
            (Pat::Wild(_), it) => {
                // the value is still computed
                let e = it.ts();
                let w = e.to_string();
                let pure = w.chars().all(|c| c.is_alphanumeric() || c == '_' || c == '.' || c == ' ' || c == '*' || c == '&' || c == '(' || c == ')') && !w.contains("()") && !w.contains("( )");
                if pure { Ok(TS::new()) } else { Ok(quote!(let _ = #e;)) }
            }
            (Pat::Type(t), it) => self.bind(&t.pat, it),
            (Pat::Paren(t), it) => self.bind(&t.pat, it),
            (Pat::Ident(pi), it) => {
                if pi.subpat.is_some() || pi.by_ref.is_some() {
                    return Err(format!("{}: unsupported binding", self.key));
                }
                let m = &pi.mutability;
                let n = &pi.ident;
                let e = it.ts();
                Ok(quote!(let #m #n = #e;))
            }
            (Pat::Reference(r), Item::Ref(p)) => self.bind(&r.pat, Item::Expr(p)),
            (Pat::Reference(r), Item::Expr(e)) => self.bind(&r.pat, Item::Expr(quote!((*(#e))))),
            (Pat::Tuple(t), Item::Tuple(v)) => {
                if t.elems.len() != v.len() {
                    return Err(format!("{}: tuple arity", self.key));
                }
                let mut o = TS::new();
                for (p, i) in t.elems.iter().zip(v) {
                    o.extend(self.bind(p, i)?);
                }
                Ok(o)
            }
            (Pat::Tuple(t), Item::Ref(p)) => {
                let mut o = TS::new();
                for (k, q) in t.elems.iter().enumerate() {
                    let k = syn::Index::from(k);
                    o.extend(self.bind(q, Item::Ref(quote!(#p.#k)))?);
                }
                Ok(o)
            }
            (Pat::Tuple(t), Item::Expr(e)) => {
                let v = self.newvar("t");
                let mut o = quote!(let #v = #e;);
                for (k, q) in t.elems.iter().enumerate() {
                    let k = syn::Index::from(k);
                    o.extend(self.bind(q, Item::Expr(quote!(#v.#k)))?);
                }
                Ok(o)
            }
            (p, _) => Err(format!("{}: unsupported pattern {}", self.key, p.to_token_stream())),
        }
    }

    // ---------------------------------------------------------------- expressions

    pub fn expr(&mut self, e: &Expr) -> R<TS> {
        Ok(match e {
            Expr::Lit(l) => match &l.lit {
                Lit::Float(f) => {
                    let r = real_lit(f.base10_digits())?;
                    if f.suffix() == "f32" {
                        return Ok(quote!(__vx_real32!(#r)));
                    }
                    quote!(__vx_real!(#r))
                }
                Lit::Int(i) if i.suffix() == "f64" => {
                    let r = real_lit(i.base10_digits())?;
                    quote!(__vx_real!(#r))
                }
                _ => e.to_token_stream(),
            },
            Expr::Paren(p) => {
                let i = self.expr(&p.expr)?;
                quote!((#i))
            }
            Expr::Group(p) => self.expr(&p.expr)?,
            Expr::Unary(u) => {
                let i = self.expr(&u.expr)?;
                let op = &u.op;
                quote!(#op #i)
            }
            Expr::Binary(b) => {
                let l = self.expr(&b.left)?;
                let r = self.expr(&b.right)?;
                let op = match &b.op {
                    BinOp::AddAssign(_) => Some(quote!(+)),
                    BinOp::SubAssign(_) => Some(quote!(-)),
                    BinOp::MulAssign(_) => Some(quote!(*)),
                    BinOp::DivAssign(_) => Some(quote!(/)),
                    BinOp::RemAssign(_) => Some(quote!(%)),
                    _ => None,
                };
                match op {
                    Some(o) => quote!(#l = #l #o (#r)),
                    None => {
                        let o = &b.op;
                        quote!(#l #o #r)
                    }
                }
            }
            Expr::Assign(a) => {
                let l = self.expr(&a.left)?;
                let r = self.expr(&a.right)?;
                if let Expr::Index(ix) = &*a.left {
                    // method-call style place on a shim type may need rewriting later
                    let _ = ix;
                }
                quote!(#l = #r)
            }
            Expr::Cast(c) => {
                let i = self.expr(&c.expr)?;
                let t = self.ty(&c.ty);
                match t.to_string().as_str() {
                    "Float" => quote!((#i).to_float()),
                    "F32" => quote!((#i).to_f32()),
                    _ => quote!(#i as #t),
                }
            }
            Expr::Path(p) => self.path(p)?,
            Expr::Field(f) => {
                let b = self.expr(&f.base)?;
                let m = &f.member;
                quote!(#b.#m)
            }
            Expr::Index(ix) => {
                if let Expr::Range(r) = &*ix.index {
                    return self.slice(&ix.expr, r);
                }
                let b = self.expr(&ix.expr)?;
                let i = self.expr(&ix.index)?;
                if self.range_kind(&ix.index) {
                    return Ok(quote!(#b.vx_slice(#i.start, #i.end)));
                }
                quote!(#b[#i])
            }
            Expr::Reference(r) => {
                if let Expr::Index(ix) = &*r.expr {
                    if let Expr::Range(rg) = &*ix.index {
                        return self.slice(&ix.expr, rg);
                    }
                    if self.range_kind(&ix.index) {
                        return self.expr(&r.expr);
                    }
                }
                let i = self.expr(&r.expr)?;
                let m = &r.mutability;
                quote!(& #m #i)
            }
            Expr::Tuple(t) => {
                let v = t.elems.iter().map(|x| self.expr(x)).collect::<R<Vec<_>>>()?;
                if v.len() == 1 {
                    quote!((#(#v),* ,))
                } else {
                    quote!((#(#v),*))
                }
            }
            Expr::Array(t) => {
                let v = t.elems.iter().map(|x| self.expr(x)).collect::<R<Vec<_>>>()?;
                quote!([#(#v),*])
            }
            Expr::Block(b) => self.block(&b.block)?,
            Expr::If(i) => self.if_expr(i)?,
            Expr::Let(l) => {
                let x = self.expr(&l.expr)?;
                let p = self.pat(&l.pat)?;
                quote!(let #p = #x)
            }
            Expr::Match(m) if m.arms.iter().any(|a| matches!(&a.pat, Pat::Slice(_))) => {
                let x = self.expr(&m.expr)?;
                let v = self.newvar("m");
                let mut out = TS::new();
                let mut closed = false;
                for a in &m.arms {
                    if a.guard.is_some() || closed {
                        return Err(format!("{}: guarded slice pattern", self.key));
                    }
                    match &a.pat {
                        Pat::Slice(sl) => {
                            let n = sl.elems.len();
                            let mut binds = TS::new();
                            for (k, e) in sl.elems.iter().enumerate() {
                                match e {
                                    Pat::Ident(i) if i.subpat.is_none() => {
                                        let i = &i.ident;
                                        binds.extend(quote!(let #i = & #v[#k];));
                                    }
                                    Pat::Wild(_) => {}
                                    _ => return Err(format!("{}: unsupported slice pattern", self.key)),
                                }
                            }
                            let b = self.expr(&a.body)?;
                            out.extend(quote!(if #v.len() == #n { #binds #b } else));
                        }
                        Pat::Wild(_) => {
                            let b = self.expr(&a.body)?;
                            out.extend(quote!({ #b }));
                            closed = true;
                        }
                        _ => return Err(format!("{}: mixed slice patterns", self.key)),
                    }
                }
                if !closed {
                    return Err(format!("{}: slice match without a catch-all", self.key));
                }
                quote!(match #x { #v => { #out } })
            }
            Expr::Match(m) => {
                let x = self.expr(&m.expr)?;
                let mut arms = TS::new();
                for a in &m.arms {
                    let p = self.pat(&a.pat)?;
                    let g = match &a.guard {
                        Some((_, g)) => {
                            let g = self.expr(g)?;
                            quote!(if #g)
                        }
                        None => TS::new(),
                    };
                    let b = self.expr(&a.body)?;
                    if matches!(&*a.body, Expr::Block(_)) {
                        arms.extend(quote!(#p #g => #b,));
                    } else {
                        arms.extend(quote!(#p #g => { #b },));
                    }
                }
                quote!(match #x { #arms })
            }
            Expr::Return(r) => {
                let v = match &r.expr {
                    Some(x) => Some(self.expr(x)?),
                    None => None,
                };
                if self.has_return_ghost && self.inline_stack.is_empty() {
                    match v {
                        Some(v) => quote!({ let __ret = #v; __vx_ghost!("return"); return __ret; }),
                        None => quote!({ __vx_ghost!("return"); return; }),
                    }
                } else {
                    match v {
                        Some(v) => quote!(return #v),
                        None => quote!(return),
                    }
                }
            }
            Expr::Break(b) => {
                if b.label.is_some() || b.expr.is_some() {
                    return Err(format!("{}: labelled break", self.key));
                }
                quote!(break)
            }
            Expr::Continue(b) => {
                if b.label.is_some() {
                    return Err(format!("{}: labelled continue", self.key));
                }
                quote!(continue)
            }
            Expr::Try(t) => {
                let x = self.expr(&t.expr)?;
                quote!(#x?)
            }
            Expr::Struct(s) => {
                let mut fs = TS::new();
                for f in &s.fields {
                    let m = &f.member;
                    let v = self.expr(&f.expr)?;
                    fs.extend(quote!(#m : #v,));
                }
                let p = self.struct_path(&s.path);
                match &s.rest {
                    Some(r) => {
                        let r = self.expr(r)?;
                        quote!(#p { #fs ..#r })
                    }
                    None => quote!(#p { #fs }),
                }
            }
            Expr::ForLoop(f) => self.for_loop(f)?,
            Expr::While(w) => self.while_loop(w)?,
            Expr::Loop(l) => self.loop_loop(l)?,
            Expr::Macro(m) => self.mac(&m.mac)?,
            Expr::MethodCall(m) => self.method(m)?,
            Expr::Call(c) => self.call(c)?,
            Expr::Range(r) => {
                let a = match &r.start {
                    Some(x) => self.expr(x)?,
                    None => TS::new(),
                };
                let b = match &r.end {
                    Some(x) => self.expr(x)?,
                    None => TS::new(),
                };
                let l = &r.limits;
                quote!(#a #l #b)
            }
            other => {
                return Err(format!(
                    "{}: unsupported expression {}",
                    self.key,
                    other.to_token_stream().to_string().chars().take(60).collect::<String>()
                ))
            }
        })
    }

    fn struct_path(&mut self, p: &syn::Path) -> TS {
        let l = p.segments.last().unwrap();
        let n = l.ident.to_string();
        if let Some(r) = self.renames.get(&n) {
            let i = id(r);
            return quote!(#i);
        }
        if p.segments.len() >= 2 {
            let pn = p.segments[p.segments.len() - 2].ident.to_string();
            if pn.chars().next().unwrap().is_uppercase() {
                let a = id(&pn);
                let b = &l.ident;
                return quote!(#a::#b);
            }
        }
        let i = &l.ident;
        quote!(#i)
    }

    /// patterns in match / if-let: flatten paths, lower literals
    fn pat(&mut self, p: &Pat) -> R<TS> {
        Ok(match p {
            Pat::TupleStruct(t) => {
                let path = self.flat_path(&t.path);
                let v = t.elems.iter().map(|x| self.pat(x)).collect::<R<Vec<_>>>()?;
                quote!(#path(#(#v),*))
            }
            Pat::Tuple(t) => {
                let v = t.elems.iter().map(|x| self.pat(x)).collect::<R<Vec<_>>>()?;
                quote!((#(#v),*))
            }
            Pat::Path(pp) => {
                let path = self.flat_path(&pp.path);
                quote!(#path)
            }
            Pat::Or(o) => {
                let v = o.cases.iter().map(|x| self.pat(x)).collect::<R<Vec<_>>>()?;
                quote!(#(#v)|*)
            }
            _ => p.to_token_stream(),
        })
    }

    fn flat_path(&self, p: &syn::Path) -> TS {
        let n = p.segments.len();
        if n >= 2 {
            let prev = p.segments[n - 2].ident.to_string();
            if prev.chars().next().unwrap().is_uppercase() {
                let mut a = prev.clone();
                if a == "f64" {
                    a = "Float".into();
                }
                if a == "VecDeque" {
                    a = "Vec".into();
                }
                if let Some(r) = self.renames.get(&a) {
                    a = r.clone();
                }
                let a = id(&a);
                let b = &p.segments[n - 1].ident;
                return quote!(#a::#b);
            }
        }
        let l = &p.segments[n - 1].ident;
        quote!(#l)
    }

    fn path(&mut self, p: &ExprPath) -> R<TS> {
        if p.qself.is_some() {
            return Err(format!("{}: qualified path", self.key));
        }
        let mut path = p.path.clone();
        let n = path.segments.len();
        if n >= 2 {
            if let Some(syn::Type::Path(t)) = self.subst.get(&path.segments[0].ident.to_string()) {
                path.segments[0].ident = id(&last_seg(&t.path));
            }
        }
        let path = &path;
        let l = last_seg(path);
        if l == "self" {
            if let Some(s) = &self.self_rename {
                return Ok(quote!(#s));
            }
            return Ok(quote!(self));
        }
        if n >= 2 {
            let prev = path.segments[n - 2].ident.to_string();
            match (prev.as_str(), l.as_str()) {
                ("Float", "MAX") | ("f64", "MAX") => return Ok(quote!(Float::max_value())),
                ("Float", "MIN") | ("f64", "MIN") => return Ok(quote!(Float::min_value())),
                ("f64", "EPSILON") | ("Float", "EPSILON") => return Ok(quote!(__vx_real!("0.00000000000000022204460492503130808472633361816406250"))),
                ("usize" | "u8" | "u16" | "u32" | "u64" | "isize" | "i32" | "i64", "MAX" | "MIN") => {
                    let (t, c) = (id(&prev), id(&l));
                    return Ok(quote!(#t::#c));
                }
                (_, "ZERO") => {
                    let t = id(&prev);
                    return Ok(quote!(#t::zero()));
                }
                _ => {}
            }
        }
        let is_upper = l.chars().all(|c| c.is_ascii_uppercase() || c == '_' || c.is_ascii_digit());
        if is_upper && l.len() > 1 {
            let cs: Vec<_> = self.src.consts.iter().filter(|c| c.0 == l).cloned().collect();
            if cs.len() == 1 {
                let x = self.expr(&cs[0].1)?;
                return Ok(quote!((#x)));
            }
            match l.as_str() {
                "PI" => return Ok(quote!(vx_pi())),
                "TAU" => return Ok(quote!(vx_tau())),
                "FRAC_PI_2" => return Ok(quote!((vx_pi() / __vx_real!("2.0")))),
                _ => {}
            }
        }
        Ok(self.flat_path(path))
    }

    fn range_kind(&self, e: &Expr) -> bool {
        matches!(e, Expr::Path(p) if p.path.get_ident().and_then(|i| self.kinds.get(&i.to_string())).copied() == Some("range"))
    }
    /// call argument; an inclusive range (only used for slicing in this code base) is passed as the
    /// equivalent half-open one
    fn arg(&mut self, e: &Expr) -> R<TS> {
        if let Expr::Range(r) = e {
            if let (RangeLimits::Closed(_), Some(a), Some(b)) = (&r.limits, &r.start, &r.end) {
                let a = self.expr(a)?;
                let b = self.expr(b)?;
                return Ok(quote!((#a)..((#b) + 1)));
            }
        }
        self.expr(e)
    }
    fn slice(&mut self, base: &Expr, r: &ExprRange) -> R<TS> {
        let b = self.expr(base)?;
        let lo = match &r.start {
            Some(x) => self.expr(x)?,
            None => quote!(0),
        };
        let incl = matches!(r.limits, RangeLimits::Closed(_));
        match &r.end {
            Some(x) => {
                let hi = self.expr(x)?;
                if incl {
                    Ok(quote!(#b.vx_slice(#lo, (#hi) + 1)))
                } else {
                    Ok(quote!(#b.vx_slice(#lo, #hi)))
                }
            }
            None => {
                let v = self.newvar("sl");
                Ok(quote!(({ let #v = & #b; #v.vx_slice(#lo, #v.len()) })))
            }
        }
    }

    fn if_expr(&mut self, i: &ExprIf) -> R<TS> {
        // if let [a, b] = X
        if let Expr::Let(l) = &*i.cond {
            if let Pat::Slice(sp) = &*l.pat {
                let (by_copy, basee): (bool, &Expr) = match &*l.expr {
                    Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => (true, &u.expr),
                    other => (false, other),
                };
                let b = self.expr(basee)?;
                let v = self.newvar("p");
                let n = sp.elems.len();
                let mut binds = TS::new();
                for (k, p) in sp.elems.iter().enumerate() {
                    let it = if by_copy { Item::Expr(quote!(#v[#k])) } else { Item::Ref(quote!(#v[#k])) };
                    if matches!(p, Pat::Rest(_)) {
                        return Err(format!("{}: rest slice pattern", self.key));
                    }
                    binds.extend(self.bind(p, it)?);
                }
                let then = self.stmts(&i.then_branch.stmts)?;
                let els = match &i.else_branch {
                    Some((_, e)) => {
                        let e = self.else_branch(e)?;
                        quote!(else #e)
                    }
                    None => TS::new(),
                };
                return Ok(quote!({ let #v = #b; if #v.len() == #n { #binds #then } #els }));
            }
        }
        let c = self.expr(&i.cond)?;
        let t = self.block(&i.then_branch)?;
        match &i.else_branch {
            Some((_, e)) => {
                let e = self.else_branch(e)?;
                Ok(quote!(if #c #t else #e))
            }
            None => Ok(quote!(if #c #t)),
        }
    }
    fn else_branch(&mut self, e: &Expr) -> R<TS> {
        match e {
            Expr::If(i) => {
                let t = self.if_expr(i)?;
                // slice if-let lowers to a block; either is fine after else
                Ok(t)
            }
            Expr::Block(b) => self.block(&b.block),
            other => {
                let t = self.expr(other)?;
                Ok(quote!({ #t }))
            }
        }
    }

    // ---------------------------------------------------------------- macros

    fn mac_args(&self, m: &Macro) -> R<Vec<Expr>> {
        let p = punctuated::Punctuated::<Expr, Token![,]>::parse_terminated;
        let v = syn::parse::Parser::parse2(p, m.tokens.clone()).map_err(|e| format!("{}: macro args {}", self.key, e))?;
        Ok(v.into_iter().collect())
    }

    fn mac(&mut self, m: &Macro) -> R<TS> {
        let n = last_seg(&m.path);
        match n.as_str() {
            "vec" => {
                // vec![x; n] or list
                let toks = m.tokens.clone();
                if let Ok(r) = syn::parse2::<ExprRepeat>(quote!([#toks])) {
                    let x = self.expr(&r.expr)?;
                    let n = self.expr(&r.len)?;
                    return Ok(quote!(vx_vec_repeat(#x, #n)));
                }
                let args = self.mac_args(m)?;
                let v = self.newvar("v");
                let mut pushes = TS::new();
                for a in &args {
                    let a = self.expr(a)?;
                    pushes.extend(quote!(#v.push(#a);));
                }
                Ok(quote!(({ let mut #v = Vec::new(); #pushes #v })))
            }
            "assert" | "debug_assert" => {
                let args = self.mac_args(m)?;
                let a = self.expr(&args[0])?;
                Ok(quote!(vx_assert(#a)))
            }
            "assert_eq" | "debug_assert_eq" => {
                let args = self.mac_args(m)?;
                let a = self.expr(&args[0])?;
                let b = self.expr(&args[1])?;
                Ok(quote!(vx_assert((#a) == (#b))))
            }
            "unreachable" | "panic" | "unimplemented" | "todo" => Ok(quote!(vx_unreachable())),
            "ulps_eq" => {
                let args = self.mac_args(m)?;
                let a = self.expr(&args[0])?;
                let b = self.expr(&args[1])?;
                Ok(quote!((#a).vx_ulps_eq(&(#b))))
            }
            "writeln" | "write" | "format" => self.fmt_macro(&n, m),
            _ => Err(format!("{}: unsupported macro {}!", self.key, n)),
        }
    }

    /// `writeln!(w, "fmt", args..)` becomes `w.vx_writeln(FMT-EVENT)` where the event carries the
    /// literal format string and the ordered argument values
    fn fmt_macro(&mut self, n: &str, m: &Macro) -> R<TS> {
        let args = self.mac_args(m)?;
        let (w, rest) = if n == "format" { (None, &args[..]) } else { (Some(&args[0]), &args[1..]) };
        let (fmt, vals): (String, Vec<TS>) = if rest.is_empty() {
            (String::new(), vec![])
        } else {
            let f = match &rest[0] {
                Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value(),
                _ => return Err(format!("{}: non-literal format", self.key)),
            };
            let mut vals = vec![];
            for a in &rest[1..] {
                if let Expr::Assign(_) = a {
                    return Err(format!("{}: named format argument", self.key));
                }
                vals.push(self.expr(a)?);
            }
            (f, vals)
        };
        // split the literal into pieces: literal text and holes with their format spec
        let mut f = fmt.clone();
        if n == "writeln" {
            f.push('\n');
        }
        let mut pieces = TS::new();
        let mut lit = String::new();
        let mut k = 0usize;
        let cs: Vec<char> = f.chars().collect();
        let mut i = 0;
        let v = self.newvar("f");
        let flush = |lit: &mut String, pieces: &mut TS| {
            if !lit.is_empty() {
                for c in std::mem::take(lit).chars() {
                    pieces.extend(quote!(#v.vx_ch(#c);));
                }
            }
        };
        while i < cs.len() {
            if cs[i] == '{' && i + 1 < cs.len() && cs[i + 1] == '{' {
                lit.push('{');
                i += 2;
            } else if cs[i] == '}' && i + 1 < cs.len() && cs[i + 1] == '}' {
                lit.push('}');
                i += 2;
            } else if cs[i] == '{' {
                let j = (i..cs.len()).find(|&j| cs[j] == '}').ok_or("bad format")?;
                let spec: String = cs[i + 1..j].iter().collect();
                flush(&mut lit, &mut pieces);
                let (name, sp) = match spec.split_once(':') {
                    Some((a, b)) => (a.to_string(), b.to_string()),
                    None => (spec.clone(), String::new()),
                };
                let val = if name.is_empty() {
                    let x = vals.get(k).ok_or("format args")?.clone();
                    k += 1;
                    x
                } else if let Ok(p) = name.parse::<usize>() {
                    vals.get(p).ok_or("format args")?.clone()
                } else {
                    let nm = id(&name);
                    quote!(#nm)
                };
                let fmt = match sp.as_str() {
                    "" => quote!(Fmt::Plain),
                    p if p.starts_with('.') && p[1..].parse::<u32>().is_ok() => {
                        let n = proc_macro2::Literal::u32_unsuffixed(p[1..].parse::<u32>().unwrap());
                        quote!(Fmt::Prec(#n))
                    }
                    p if p.parse::<u32>().is_ok() => {
                        let n = proc_macro2::Literal::u32_unsuffixed(p.parse::<u32>().unwrap());
                        quote!(Fmt::Width(#n))
                    }
                    _ => quote!(Fmt::Other),
                };
                pieces.extend(quote!((#val).vx_show(&mut #v, #fmt);));
                i = j + 1;
            } else {
                lit.push(cs[i]);
                i += 1;
            }
        }
        flush(&mut lit, &mut pieces);
        match w {
            Some(w) => {
                let w = self.expr(w)?;
                Ok(quote!(({ let mut #v = Text::new(); #pieces #w.vx_write_text(#v) })))
            }
            None => Ok(quote!(({ let mut #v = Text::new(); #pieces #v }))),
        }
    }

    // ---------------------------------------------------------------- calls

    fn inline_call(&mut self, f: &FnItem, recv: Option<TS>, args: Vec<TS>) -> R<TS> {
        if self.inline_stack.contains(&f.key) || self.inline_stack.len() > 4 {
            return Err(format!("{}: cannot inline {} (recursive)", self.key, f.key));
        }
        let b = elim_returns(&f.block).map_err(|e| format!("{}: inlining {}: {}", self.key, f.key, e))?;
        let mut pre = TS::new();
        let mut binds = TS::new();
        let mut k = 0;
        let mut inl_ranges: Vec<String> = vec![];
        let mut srename = None;
        for inp in &f.sig.inputs {
            match inp {
                FnArg::Receiver(r) => {
                    let v = self.newvar("self");
                    let rv = recv.clone().ok_or("inline: no receiver")?;
                    if r.reference.is_some() {
                        if r.mutability.is_some() {
                            pre.extend(quote!(let #v = &mut #rv;));
                        } else {
                            pre.extend(quote!(let #v = & #rv;));
                        }
                    } else {
                        pre.extend(quote!(let #v = #rv;));
                    }
                    srename = Some(v);
                }
                FnArg::Typed(t) => {
                    let v = self.newvar("a");
                    let a = args.get(k).ok_or("inline: arity")?.clone();
                    k += 1;
                    pre.extend(quote!(let #v = #a;));
                    binds.extend(self.bind(&t.pat, Item::Expr(quote!(#v)))?);
                    if a.to_string().contains("..") && a.to_string().starts_with('(') {
                        if let Pat::Ident(i) = &*t.pat {
                            inl_ranges.push(i.ident.to_string());
                        }
                    }
                }
            }
        }
        self.inline_stack.push(f.key.clone());
        let old = std::mem::replace(&mut self.self_rename, srename);
        let oldbase = self.self_base.clone();
        if let Some(t) = &f.self_ty {
            self.self_base = Some(base_name(t));
        }
        let saved_kinds = self.kinds.clone();
        for i in inl_ranges {
            self.kinds.insert(i, "range");
        }
        let body = self.stmts(&b.stmts)?;
        self.kinds = saved_kinds;
        self.self_rename = old;
        self.self_base = oldbase;
        self.inline_stack.pop();
        self.inlined.push(f.key.clone());
        Ok(quote!(({ #pre #binds #body })))
    }

    fn call(&mut self, c: &ExprCall) -> R<TS> {
        if let Expr::Path(p) = &*c.func {
            let n = p.path.segments.len();
            let l = last_seg(&p.path);
            let prev = if n >= 2 { p.path.segments[n - 2].ident.to_string() } else { String::new() };
            // Box::new is kept; rand::random
            if l == "random" && prev == "rand" {
                return Ok(quote!(vx_random()));
            }
            if prev == "Vec" && l == "from" {
                let a = self.expr(&c.args[0])?;
                return Ok(quote!((#a).vx_to_vec()));
            }
            let args = c.args.iter().map(|a| self.expr(a)).collect::<R<Vec<_>>>()?;
            let type_prev = if prev == "Self" { self.self_base.clone().unwrap_or_default() } else { prev.clone() };
            let is_type_path = prev.chars().next().map_or(false, |c| c.is_uppercase());
            if is_type_path {
                let key = format!("{}::{}", type_prev, l);
                let f = self.fn_flat(&p.path);
                if self.contracted.contains(&key) || self.prelude_fns.contains(&l) {
                    return Ok(quote!(#f(#(#args),*)));
                }
                let cands: Vec<FnItem> = self.src.fns.iter().filter(|f| f.name == l && f.self_ty.as_ref().map_or(false, |t| base_name(t) == type_prev)).cloned().collect();
                let any_contracted = cands.iter().any(|c| self.contracted.contains(&c.key));
                if cands.len() == 1 && !any_contracted && !self.noinline.contains(&l) {
                    let has_self = cands[0].sig.receiver().is_some();
                    if !has_self {
                        return self.inline_call(&cands[0], None, args);
                    }
                }
                return Ok(quote!(#f(#(#args),*)));
            }
            // free function of the repository
            let cands: Vec<FnItem> = self.src.fns.iter().filter(|f| f.name == l && f.self_ty.is_none() && f.trait_name.is_none()).cloned().collect();
            if !cands.is_empty() && !self.contracted.contains(&l) && !self.prelude_fns.contains(&l) && !self.noinline.contains(&l) {
                // prefer the one in the same file
                let own = self.src.fns.iter().find(|f| f.key == self.key).map(|f| f.file.clone());
                let pick = cands.iter().find(|f| Some(&f.file) == own.as_ref()).unwrap_or(&cands[0]).clone();
                return self.inline_call(&pick, None, args);
            }
            let f = self.fn_flat(&p.path);
            return Ok(quote!(#f(#(#args),*)));
        }
        let args = c.args.iter().map(|a| self.expr(a)).collect::<R<Vec<_>>>()?;
        let f = self.expr(&c.func)?;
        Ok(quote!((#f)(#(#args),*)))
    }

    fn fn_flat(&self, p: &syn::Path) -> TS {
        let n = p.segments.len();
        if n >= 2 {
            let prev = &p.segments[n - 2];
            if prev.ident.to_string().chars().next().unwrap().is_uppercase() {
                let mut nm = prev.ident.to_string();
                if let Some(syn::Type::Path(t)) = self.subst.get(&nm) {
                    nm = last_seg(&t.path);
                }
                if let Some(r) = self.renames.get(&nm) {
                    nm = r.clone();
                }
                let a = id(&nm);
                let b = &p.segments[n - 1].ident;
                return quote!(#a::#b);
            }
        }
        let l = &p.segments[n - 1].ident;
        quote!(#l)
    }

    fn is_stream(&self, e: &Expr) -> bool {
        match e {
            Expr::Paren(p) => self.is_stream(&p.expr),
            Expr::Range(r) => r.start.is_some(),
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match n.as_str() {
                    "iter" | "into_iter" | "windows" | "chunks" | "chunks_exact" | "iter_mut" => true,
                    "split" | "lines" | "split_whitespace" | "split_ascii_whitespace" => true,
                    "map" | "filter" | "filter_map" | "enumerate" | "zip" | "take" | "skip" | "rev" | "flatten" | "flat_map"
                    | "copied" | "cloned" | "take_while" => self.is_stream(&m.receiver),
                    _ => false,
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    last_seg(&p.path) == "repeat"
                } else {
                    false
                }
            }
            _ => false,
        }
    }

    fn as_closure(e: &Expr) -> R<&ExprClosure> {
        match e {
            Expr::Closure(c) => Ok(c),
            Expr::Paren(p) => Self::as_closure(&p.expr),
            _ => Err("non-closure adaptor argument".into()),
        }
    }

    fn opt_closure(&mut self, c: &ExprClosure, v: &TS) -> R<TS> {
        let b = self.bind(&c.inputs[0], Item::Expr(v.clone()))?;
        let body = self.closure_body(c)?;
        Ok(quote!({ #b #body }))
    }

    fn closure_body(&mut self, c: &ExprClosure) -> R<TS> {
        match &*c.body {
            Expr::Block(b) => {
                let nb = elim_returns(&b.block)?;
                self.inline_stack.push("<closure>".into());
                let r = self.stmts(&nb.stmts);
                self.inline_stack.pop();
                r
            }
            other => {
                if contains_return_expr(other) {
                    let nb = elim_returns(&blk(vec![Stmt::Expr(other.clone(), None)]))?;
                    return self.stmts(&nb.stmts);
                }
                self.expr(other)
            }
        }
    }

    fn method(&mut self, m: &ExprMethodCall) -> R<TS> {
        let n = m.method.to_string();
        // ---- sinks over iterator chains
        if self.is_stream(&m.receiver) {
            match n.as_str() {
                "collect" => return self.sink_collect(m),
                "count" | "sum" | "product" => return self.sink_acc(m, &n),
                "position" | "rposition" | "any" | "all" | "find_map" | "find" => return self.sink_search(m, &n),
                "for_each" => return self.sink_for_each(m),
                _ => {}
            }
        }
        if n == "extend" && m.args.len() == 1 {
            return self.sink_extend(m);
        }
        if n == "extend_from_slice" {
            let r = self.expr(&m.receiver)?;
            if let Expr::Reference(x) = &m.args[0] {
                if let Expr::Array(a) = &*x.expr {
                    let mut o = TS::new();
                    for el in &a.elems {
                        let t = self.expr(el)?;
                        o.extend(quote!(#r.push(#t);));
                    }
                    return Ok(quote!({ #o }));
                }
            }
            let a = self.expr(&m.args[0])?;
            return Ok(quote!(vx_extend_from_slice(&mut #r, #a)));
        }
        // pushing literal text: its characters
        if (n == "push_str" || n == "push") && m.args.len() == 1 {
            let t: Option<String> = match &m.args[0] {
                Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) if n == "push_str" => Some(s.value()),
                Expr::Lit(ExprLit { lit: Lit::Char(c), .. }) if n == "push" => Some(c.value().to_string()),
                _ => None,
            };
            if let Some(t) = t {
                let r = self.expr(&m.receiver)?;
                let mut o = TS::new();
                for c in t.chars() {
                    o.extend(quote!(#r.vx_ch(#c);));
                }
                return Ok(quote!({ #o }));
            }
        }
        // slicing + to_vec
        if n == "to_vec" {
            let r = self.expr(&m.receiver)?;
            return Ok(quote!(#r.vx_to_vec()));
        }
        if (n == "as_ref" || n == "deref") && m.args.is_empty() && self.self_base.as_deref() == Some("Box") && m.receiver.to_token_stream().to_string() == "self" {
            let r = self.expr(&m.receiver)?;
            return Ok(quote!((&**#r)));
        }
        if n == "as_ref" && m.args.is_empty() {
            if let Expr::Path(p) = &*m.receiver {
                if let Some(i) = p.path.get_ident() {
                    if self.kinds.get(&i.to_string()) == Some(&"asref") {
                        return Ok(quote!((& #i)));
                    }
                }
            }
        }
        if n == "to_le_bytes" || n == "to_be_bytes" {
            let r = self.expr(&m.receiver)?;
            let f = id(if n == "to_le_bytes" { "vx_le_bytes" } else { "vx_be_bytes" });
            return Ok(quote!((#r).#f()));
        }
        if n == "clone" {
            let r = self.expr(&m.receiver)?;
            return Ok(quote!(#r.vx_clone()));
        }
        if n == "into" && m.args.is_empty() {
            let r = self.expr(&m.receiver)?;
            let t = self.ret_into.clone().ok_or(format!("{}: into() without known target", self.key))?;
            let t = id(&t);
            return Ok(quote!(#t::from(#r)));
        }
        // Option combinators with closures
        if (n == "map" || n == "and_then") && m.args.len() == 1 {
            if let Ok(c) = Self::as_closure(&m.args[0]) {
                let r = self.expr(&m.receiver)?;
                let v = self.newvar("o");
                let b = self.opt_closure(c, &quote!(#v))?;
                return Ok(if n == "map" {
                    quote!((match #r { Some(#v) => Some(#b), None => None }))
                } else {
                    quote!((match #r { Some(#v) => #b, None => None }))
                });
            }
        }
        if n == "dedup_by" || n == "dedup_by_key" || n == "dedup" {
            // the documented meaning: an item is dropped when it matches the last one kept
            let rv = &m.receiver;
            let dd = id(&if self.dedups == 0 { "__dd".to_string() } else { format!("__dd{}", self.dedups) });
            self.dedups += 1;
            let last = quote!(#dd[#dd.len() - 1]);
            let test: TS = if n == "dedup" {
                quote!(*__ddx == #last)
            } else {
                let c = Self::as_closure(&m.args[0])?;
                let b = &c.body;
                let ps: Vec<&Pat> = c.inputs.iter().map(|p| match p { Pat::Type(t) => &*t.pat, p => p }).collect();
                if n == "dedup_by" {
                    let (a, z) = (ps.get(0).ok_or("dedup_by")?, ps.get(1).ok_or("dedup_by")?);
                    quote!({ let #a = __ddx; let #z = & #last; #b })
                } else {
                    let a = ps.get(0).ok_or("dedup_by_key")?;
                    quote!({ let __ddk = { let #a = &(*__ddx); #b }; let __ddl = { let #a = & #last; #b }; __ddk == __ddl })
                }
            };
            let e: Expr = syn::parse2(quote!({
                let mut #dd = Vec::new();
                for __ddx in #rv.iter() {
                    let __ddup = if #dd.len() == 0 { false } else { #test };
                    if !__ddup { #dd.push(*__ddx); }
                }
                #rv = #dd;
            })).map_err(|e| format!("{}: dedup: {}", self.key, e))?;
            return self.expr(&e);
        }
        if matches!(n.as_str(), "sort" | "sort_unstable") {
            let r = self.expr(&m.receiver)?;
            let gb = format!("sort{}.before", self.sorts);
            self.sorts += 1;
            return Ok(quote!({ { let __q = &#r; __vx_ghost!(#gb); } #r.vx_sort() }));
        }
        if matches!(n.as_str(), "sort_by" | "sort_by_key" | "sort_unstable_by" | "sort_unstable_by_key") {
            // the documented meaning: some permutation in which no item is greater than the next
            let rv = &m.receiver;
            let c = Self::as_closure(&m.args[0])?;
            let b = &c.body;
            let ps: Vec<&Pat> = c.inputs.iter().map(|p| match p { Pat::Type(t) => &*t.pat, p => p }).collect();
            let test: TS = if n.ends_with("key") {
                let a = ps.get(0).ok_or("sort_by_key")?;
                quote!({ let __sk = { let #a = &__sp[0]; #b }; let __sl = { let #a = &__sp[1]; #b }; vx_assume_ordered(__sk.vx_cmp(&__sl)); })
            } else {
                let (a, z) = (ps.get(0).ok_or("sort_by")?, ps.get(1).ok_or("sort_by")?);
                quote!({ let #a = &__sp[0]; let #z = &__sp[1]; vx_assume_ordered(#b); })
            };
            let e: Expr = syn::parse2(quote!({
                #rv.vx_permute();
                for __sp in #rv.windows(2) { #test }
            })).map_err(|e| format!("{}: sort: {}", self.key, e))?;
            return self.expr(&e);
        }
        if n == "reverse" && m.args.is_empty() {
            let r = self.expr(&m.receiver)?;
            return Ok(quote!(#r.vx_reverse()));
        }
        if n == "rem_euclid" || n == "cmp" || n == "binary_search" {
            let r = self.expr(&m.receiver)?;
            let args = m.args.iter().map(|a| self.arg(a)).collect::<R<Vec<_>>>()?;
            let f = id(&format!("vx_{}", n));
            return Ok(quote!((#r).#f(#(#args),*)));
        }
        // helper methods of the repository without a contract
        if !self.prelude_fns.contains(&n) && !self.noinline.contains(&n) {
            let cands: Vec<FnItem> = self
                .src
                .fns
                .iter()
                .filter(|f| f.name == n && f.sig.receiver().is_some() && f.sig.inputs.len() == m.args.len() + 1)
                .cloned()
                .collect();
            let is_self = matches!(&*m.receiver, Expr::Path(p) if p.path.is_ident("self"));
            let pick = if is_self && self.self_base.is_some() {
                let sb = self.self_base.clone().unwrap();
                let v: Vec<_> = cands.iter().filter(|f| f.self_ty.as_ref().map_or(false, |t| base_name(t) == sb)).cloned().collect();
                if v.iter().any(|f| self.contracted.contains(&f.key)) {
                    None
                } else if v.len() == 1 {
                    Some(v[0].clone())
                } else if v.is_empty() && cands.len() == 1 && !self.contracted.contains(&cands[0].key) {
                    Some(cands[0].clone())
                } else {
                    None
                }
            } else if cands.len() == 1 && !self.contracted.contains(&cands[0].key) {
                Some(cands[0].clone())
            } else {
                None
            };
            if let Some(f) = pick {
                let r = self.expr(&m.receiver)?;
                let args = m.args.iter().map(|a| self.arg(a)).collect::<R<Vec<_>>>()?;
                return self.inline_call(&f, Some(quote!((#r))), args);
            }
        }
        let r = self.expr(&m.receiver)?;
        let args = m.args.iter().map(|a| self.arg(a)).collect::<R<Vec<_>>>()?;
        let name = &m.method;
        let tf = match &m.turbofish {
            Some(t) => {
                let tys: Vec<TS> = t
                    .args
                    .iter()
                    .map(|a| match a {
                        GenericArgument::Type(t) => self.ty(t),
                        other => other.to_token_stream(),
                    })
                    .collect();
                quote!(::<#(#tys),*>)
            }
            None => TS::new(),
        };
        Ok(quote!(#r.#name #tf (#(#args),*)))
    }

    // ---------------------------------------------------------------- streams

    /// parse an iterator expression. `lid` names the variables.
    fn stream<'e>(&mut self, e: &'e Expr, lid: &str, tag: &mut usize) -> R<Stream<'e>> {
        match e {
            Expr::Paren(p) => self.stream(&p.expr, lid, tag),
            Expr::Range(r) => {
                let lo = self.expr(r.start.as_ref().ok_or("open range")?)?;
                let incl = matches!(r.limits, RangeLimits::Closed(_));
                let hi = self.expr(r.end.as_ref().ok_or("open range")?)?;
                Ok(Stream { pre: TS::new(), base: Base::Range { lo, hi, incl, rev: false }, ops: vec![] })
            }
            Expr::Call(c) if matches!(&*c.func, Expr::Path(p) if last_seg(&p.path) == "repeat") => {
                let x = self.expr(&c.args[0])?;
                let v = id(&format!("__s{}{}", Self::suffix(lid), tagname(tag)));
                let pre = quote!(let #v = #x;);
                let item: ItemFn = Rc::new(move |_| Item::Expr(quote!(#v)));
                Ok(Stream { pre, base: Base::Idx(Indexed { len: None, item, rev: false }), ops: vec![] })
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match n.as_str() {
                    "iter" => {
                        let s = self.expr(&m.receiver)?;
                        Ok(self.src_ref(quote!(& #s), lid, tag))
                    }
                    "into_iter" => {
                        if self.is_stream(&m.receiver) {
                            return self.stream(&m.receiver, lid, tag);
                        }
                        if let Expr::Path(p) = &*m.receiver {
                            if let Some(i) = p.path.get_ident() {
                                if self.kinds.get(&i.to_string()) == Some(&"ref") {
                                    return Ok(self.src_ref(quote!(#i), lid, tag));
                                }
                            }
                        }
                        let s = self.expr(&m.receiver)?;
                        Ok(self.src_move(s, lid, tag))
                    }
                    "lines" | "split_whitespace" | "split_ascii_whitespace" => {
                        let s = self.expr(&m.receiver)?;
                        let f = id(&format!("vx_{}", n));
                        Ok(self.src_move(quote!(#s.#f()), lid, tag))
                    }
                    "split" => {
                        let s = self.expr(&m.receiver)?;
                        let a = match &m.args[0] {
                            Expr::Lit(ExprLit { lit: Lit::Char(c), .. }) => quote!([#c]),
                            e @ Expr::Array(_) => self.expr(e)?,
                            Expr::Reference(r) if matches!(&*r.expr, Expr::Array(_)) => self.expr(&r.expr)?,
                            _ => return Err(format!("{}: split by something else than characters", self.key)),
                        };
                        Ok(self.src_move(quote!(#s.vx_split(& #a)), lid, tag))
                    }
                    "windows" | "chunks" | "chunks_exact" => {
                        let s = self.expr(&m.receiver)?;
                        let k = self.expr(&m.args[0])?;
                        let sfx = format!("{}{}", Self::suffix(lid), tagname(tag));
                        let sv = id(&format!("__s{}", sfx));
                        let kv = id(&format!("__k{}", sfx));
                        let nv = id(&format!("__n{}", sfx));
                        if n == "windows" {
                            let pre = quote!(let #sv = & #s; let #kv: usize = #k; let #nv: usize = vx_windows_len(#sv.len(), #kv););
                            let item: ItemFn = Rc::new(move |i: &TS| Item::Expr(quote!(#sv.vx_slice(#i, #i + #kv))));
                            Ok(Stream { pre, base: Base::Idx(Indexed { len: Some(quote!(#nv)), item, rev: false }), ops: vec![] })
                        } else {
                            let lenf = if n == "chunks" { id("vx_chunks_len") } else { id("vx_chunks_exact_len") };
                            let pre = quote!(let #sv = & #s; let #kv: usize = #k; let #nv: usize = #lenf(#sv.len(), #kv););
                            let item: ItemFn = Rc::new(move |i: &TS| Item::Expr(quote!(#sv.vx_chunk(#i, #kv))));
                            Ok(Stream { pre, base: Base::Idx(Indexed { len: Some(quote!(#nv)), item, rev: false }), ops: vec![] })
                        }
                    }
                    "map" | "filter" | "filter_map" | "flatten" | "flat_map" | "take_while" => {
                        let mut st = self.stream(&m.receiver, lid, tag)?;
                        st.ops.push(match n.as_str() {
                            "map" => Op::Map(Self::as_closure(&m.args[0])?),
                            "filter" => Op::Filter(Self::as_closure(&m.args[0])?),
                            "take_while" => Op::TakeWhile(Self::as_closure(&m.args[0])?),
                            "filter_map" => Op::FilterMap(Self::as_closure(&m.args[0])?),
                            "flat_map" => Op::FlatMap(Self::as_closure(&m.args[0])?),
                            _ => Op::Flatten,
                        });
                        Ok(st)
                    }
                    "copied" | "cloned" => {
                        let st = self.stream(&m.receiver, lid, tag)?;
                        self.map_item(st, |it| match it {
                            Item::Ref(p) => Item::Expr(p),
                            other => other,
                        })
                    }
                    "enumerate" => {
                        let st = self.stream(&m.receiver, lid, tag)?;
                        let st = self.to_indexed(st, lid, tag)?;
                        if !st.ops.is_empty() {
                            return Err(format!("{}: enumerate after map", self.key));
                        }
                        let Base::Idx(ix) = st.base else { unreachable!() };
                        if ix.rev {
                            return Err(format!("{}: enumerate after rev", self.key));
                        }
                        let f = ix.item.clone();
                        let item: ItemFn = Rc::new(move |i: &TS| Item::Tuple(vec![Item::Expr(i.clone()), f(i)]));
                        Ok(Stream { pre: st.pre, base: Base::Idx(Indexed { len: ix.len, item, rev: false }), ops: vec![] })
                    }
                    "rev" => {
                        let st = self.stream(&m.receiver, lid, tag)?;
                        if !st.ops.is_empty() {
                            return Err(format!("{}: rev after map", self.key));
                        }
                        let base = match st.base {
                            Base::Range { lo, hi, incl, rev } => Base::Range { lo, hi, incl, rev: !rev },
                            Base::Idx(ix) => {
                                if ix.len.is_none() {
                                    return Err("rev of infinite".into());
                                }
                                Base::Idx(Indexed { len: ix.len, item: ix.item, rev: !ix.rev })
                            }
                        };
                        Ok(Stream { pre: st.pre, base, ops: vec![] })
                    }
                    "take" | "skip" => {
                        let st = self.stream(&m.receiver, lid, tag)?;
                        let k = self.expr(&m.args[0])?;
                        let st = self.to_indexed(st, lid, tag)?;
                        let Base::Idx(ix) = st.base else { unreachable!() };
                        if st.ops.iter().any(|o| !matches!(o, Op::Map(_))) || ix.rev {
                            return Err(format!("{}: take/skip after filter", self.key));
                        }
                        let sfx = format!("{}{}", Self::suffix(lid), tagname(tag));
                        let nv = id(&format!("__n{}", sfx));
                        let mut pre = st.pre;
                        if n == "take" {
                            match &ix.len {
                                Some(l) => pre.extend(quote!(let #nv: usize = vx_min(#l, #k);)),
                                None => pre.extend(quote!(let #nv: usize = #k;)),
                            }
                            Ok(Stream { pre, base: Base::Idx(Indexed { len: Some(quote!(#nv)), item: ix.item, rev: false }), ops: st.ops })
                        } else {
                            let kv = id(&format!("__k{}", sfx));
                            let l = ix.len.ok_or("skip of infinite")?;
                            pre.extend(quote!(let #kv: usize = vx_min(#l, #k); let #nv: usize = #l - #kv;));
                            let f = ix.item.clone();
                            let item: ItemFn = Rc::new(move |i: &TS| f(&quote!((#i + #kv))));
                            Ok(Stream { pre, base: Base::Idx(Indexed { len: Some(quote!(#nv)), item, rev: false }), ops: st.ops })
                        }
                    }
                    "zip" => {
                        let a = self.stream(&m.receiver, lid, tag)?;
                        let a = self.to_indexed(a, lid, tag)?;
                        let b = self.into_stream(&m.args[0], lid, tag)?;
                        let b = self.to_indexed(b, lid, tag)?;
                        if !a.ops.is_empty() || !b.ops.is_empty() {
                            return Err(format!("{}: zip after map", self.key));
                        }
                        let (Base::Idx(x), Base::Idx(y)) = (a.base, b.base) else { unreachable!() };
                        if x.rev || y.rev {
                            return Err(format!("{}: zip after rev", self.key));
                        }
                        let sfx = format!("{}{}", Self::suffix(lid), tagname(tag));
                        let nv = id(&format!("__n{}", sfx));
                        let mut pre = a.pre;
                        pre.extend(b.pre);
                        let len = match (&x.len, &y.len) {
                            (Some(p), Some(q)) => {
                                pre.extend(quote!(let #nv: usize = vx_min(#p, #q);));
                                Some(quote!(#nv))
                            }
                            (Some(p), None) => Some(p.clone()),
                            (None, Some(q)) => Some(q.clone()),
                            _ => None,
                        };
                        let (f, g) = (x.item.clone(), y.item.clone());
                        let item: ItemFn = Rc::new(move |i: &TS| Item::Tuple(vec![f(i), g(i)]));
                        Ok(Stream { pre, base: Base::Idx(Indexed { len, item, rev: false }), ops: vec![] })
                    }
                    _ => self.into_stream_other(e, lid, tag),
                }
            }
            _ => self.into_stream_other(e, lid, tag),
        }
    }

    fn map_item<'e>(&mut self, st: Stream<'e>, f: impl Fn(Item) -> Item + 'static) -> R<Stream<'e>> {
        if !st.ops.is_empty() {
            return Err("copied after map".into());
        }
        match st.base {
            Base::Idx(ix) => {
                let g = ix.item.clone();
                let item: ItemFn = Rc::new(move |i: &TS| f(g(i)));
                Ok(Stream { pre: st.pre, base: Base::Idx(Indexed { len: ix.len, item, rev: ix.rev }), ops: vec![] })
            }
            b => Ok(Stream { pre: st.pre, base: b, ops: vec![] }),
        }
    }

    fn to_indexed<'e>(&mut self, st: Stream<'e>, lid: &str, tag: &mut usize) -> R<Stream<'e>> {
        match st.base {
            Base::Idx(_) => Ok(st),
            Base::Range { lo, hi, incl, rev } => {
                let sfx = format!("{}{}", Self::suffix(lid), tagname(tag));
                let b = id(&format!("__b{}", sfx));
                let nv = id(&format!("__n{}", sfx));
                let mut pre = st.pre;
                if incl {
                    pre.extend(quote!(let #b = #lo; let #nv: usize = vx_range_len(#b, (#hi) + 1);));
                } else {
                    pre.extend(quote!(let #b = #lo; let #nv: usize = vx_range_len(#b, #hi);));
                }
                let item: ItemFn = Rc::new(move |i: &TS| Item::Expr(quote!((#b + #i))));
                Ok(Stream { pre, base: Base::Idx(Indexed { len: Some(quote!(#nv)), item, rev }), ops: st.ops })
            }
        }
    }

    fn src_ref(&mut self, s: TS, lid: &str, tag: &mut usize) -> Stream<'static> {
        let sfx = format!("{}{}", Self::suffix(lid), tagname(tag));
        let sv = id(&format!("__s{}", sfx));
        let nv = id(&format!("__n{}", sfx));
        let pre = quote!(let #sv = #s; let #nv: usize = #sv.len(););
        let item: ItemFn = Rc::new(move |i: &TS| Item::Ref(quote!(#sv[#i])));
        Stream { pre, base: Base::Idx(Indexed { len: Some(quote!(#nv)), item, rev: false }), ops: vec![] }
    }
    fn src_move(&mut self, s: TS, lid: &str, tag: &mut usize) -> Stream<'static> {
        let sfx = format!("{}{}", Self::suffix(lid), tagname(tag));
        let sv = id(&format!("__s{}", sfx));
        let nv = id(&format!("__n{}", sfx));
        let pre = quote!(let #sv = #s; let #nv: usize = #sv.len(););
        let item: ItemFn = Rc::new(move |i: &TS| Item::Expr(quote!(#sv.vx_move(#i))));
        Stream { pre, base: Base::Idx(Indexed { len: Some(quote!(#nv)), item, rev: false }), ops: vec![] }
    }

    /// IntoIterator position (for loop, extend, zip, flatten)
    fn into_stream<'e>(&mut self, e: &'e Expr, lid: &str, tag: &mut usize) -> R<Stream<'e>> {
        if self.is_stream(e) {
            return self.stream(e, lid, tag);
        }
        self.into_stream_other(e, lid, tag)
    }
    fn into_stream_other<'e>(&mut self, e: &'e Expr, lid: &str, tag: &mut usize) -> R<Stream<'e>> {
        match e {
            Expr::Reference(r) => {
                let s = self.expr(&r.expr)?;
                Ok(self.src_ref(quote!(& #s), lid, tag))
            }
            Expr::Path(p) => {
                if let Some(i) = p.path.get_ident() {
                    match self.kinds.get(&i.to_string()).copied() {
                        Some("ref") => return Ok(self.src_ref(quote!(#i), lid, tag)),
                        Some("range") => {
                            return Ok(Stream {
                                pre: TS::new(),
                                base: Base::Range { lo: quote!(#i.start), hi: quote!(#i.end), incl: false, rev: false },
                                ops: vec![],
                            })
                        }
                        _ => {}
                    }
                }
                let s = self.expr(e)?;
                Ok(self.src_move(s, lid, tag))
            }
            _ => {
                let s = self.expr(e)?;
                Ok(self.src_move(s, lid, tag))
            }
        }
    }

    fn is_range_expr(&self, e: &Expr) -> bool {
        match e {
            Expr::Paren(p) => self.is_range_expr(&p.expr),
            Expr::Range(_) => true,
            _ => false,
        }
    }

    /// emit the loop over a stream; `sink` produces the body for one item
    fn gen_loop(
        &mut self,
        st: Stream<'_>,
        lid: &str,
        mut info: LoopInfo,
        sink: &mut dyn FnMut(&mut Self, Item) -> R<TS>,
    ) -> R<TS> {
        let sfx = Self::suffix(lid);
        let iv = id(&format!("__i{}", sfx));
        let jv = id(&format!("__j{}", sfx));
        let pre = st.pre;
        info.id = lid.to_string();
        info.alias.insert("i".into(), iv.to_string());
        info.alias.insert("j".into(), jv.to_string());
        info.alias.insert("s".into(), format!("__s{}", sfx));
        self.enter(lid);
        let simple_map = st.ops.iter().all(|o| matches!(o, Op::Map(_)));
        let (head, cond, adv, item) = match st.base {
            Base::Range { lo, hi, incl, rev } => {
                let bv = id(&format!("__b{}", sfx));
                let ev = id(&format!("__e{}", sfx));
                info.alias.insert("b".into(), bv.to_string());
                info.alias.insert("e".into(), ev.to_string());
                if !rev {
                    info.auto.push(format!("{} <= {}", bv, iv));
                    if incl {
                        info.auto.push(format!("{} <= {} + 1 || {} == {}", iv, ev, iv, bv));
                        info.decreases = Some(format!("{} + 1 - {}", ev, iv));
                        (quote!(let #bv = #lo; let #ev = #hi; let mut #iv = #bv;), quote!(#iv <= #ev), quote!(let #jv = #iv; #iv = #iv + 1;), Item::Expr(quote!(#jv)))
                    } else {
                        info.auto.push(format!("{} <= {} || {} == {}", iv, ev, iv, bv));
                        info.decreases = Some(format!("{} - {}", ev, iv));
                        (quote!(let #bv = #lo; let #ev = #hi; let mut #iv = #bv;), quote!(#iv < #ev), quote!(let #jv = #iv; #iv = #iv + 1;), Item::Expr(quote!(#jv)))
                    }
                } else {
                    let hi2 = if incl { quote!((#hi) + 1) } else { hi };
                    info.auto.push(format!("{} <= {}", iv, ev));
                    info.auto.push(format!("{} >= {} || {} == {}", iv, bv, iv, ev));
                    info.decreases = Some(format!("{} - {}", iv, bv));
                    (quote!(let #bv = #lo; let #ev = #hi2; let mut #iv = #ev;), quote!(#iv > #bv), quote!(#iv = #iv - 1; let #jv = #iv;), Item::Expr(quote!(#jv)))
                }
            }
            Base::Idx(ix) => {
                let n = ix.len.ok_or(format!("{}: infinite iterator", self.key))?;
                info.alias.insert("n".into(), n.to_string());
                if !ix.rev {
                    info.auto.push(format!("{} <= {}", iv, n));
                    info.decreases = Some(format!("{} - {}", n, iv));
                    (quote!(let mut #iv: usize = 0;), quote!(#iv < #n), quote!(let #jv = #iv; #iv = #iv + 1;), (ix.item)(&quote!(#jv)))
                } else {
                    info.auto.push(format!("{} <= {}", iv, n));
                    info.decreases = Some(format!("{}", iv));
                    (quote!(let mut #iv: usize = #n;), quote!(#iv > 0), quote!(#iv = #iv - 1; let #jv = #iv;), (ix.item)(&quote!(#jv)))
                }
            }
        };
        if simple_map {
            if let Some(o) = info.alias.get("out") {
                if info.alias.get("collect").is_some() && !cond.to_string().contains("> 0") {
                    if info.alias.contains_key("n") {
                        info.auto.push(format!("{}@.len() == {}", o, iv));
                    } else {
                        info.auto.push(format!("{}@.len() == {} - {}", o, iv, info.alias["b"]));
                    }
                }
            }
        }
        self.loops.push(info);
        let slot = self.loops.len() - 1;
        let body = self.apply_ops(&st.ops, item, sink)?;
        self.leave();
        // `$out` of a hand-written pushing loop: the unique local receiving `.push(`
        if !self.loops[slot].alias.contains_key("out") {
            if let Some(o) = unique_push(&body) {
                self.loops[slot].alias.insert("out".into(), o);
            }
        }
        let gs = format!("loop{}.start", lid);
        let ge = format!("loop{}.end", lid);
        let gb = format!("loop{}.before", lid);
        let ga = format!("loop{}.after", lid);
        Ok(quote!(#pre #head __vx_ghost!(#gb); while #cond { __vx_loop!(#lid); #adv __vx_ghost!(#gs); #body __vx_ghost!(#ge); } __vx_ghost!(#ga);))
    }

    fn apply_ops(&mut self, ops: &[Op<'_>], item: Item, sink: &mut dyn FnMut(&mut Self, Item) -> R<TS>) -> R<TS> {
        if ops.is_empty() {
            return sink(self, item);
        }
        match &ops[0] {
            Op::Map(c) => {
                let b = self.bind(&c.inputs[0], item)?;
                if ops.len() > 1 && matches!(ops[1], Op::Flatten) {
                    let inner = self.flat_body(&c.body, &ops[2..], sink)?;
                    return Ok(quote!(#b #inner));
                }
                let body = self.closure_body(c)?;
                let v = self.newvar("m");
                let is_block = matches!(&*c.body, Expr::Block(_));
                let rest = self.apply_ops(&ops[1..], Item::Expr(quote!(#v)), sink)?;
                if is_block {
                    Ok(quote!(#b let #v = { #body }; #rest))
                } else {
                    Ok(quote!(#b let #v = #body; #rest))
                }
            }
            Op::FlatMap(c) => {
                let b = self.bind(&c.inputs[0], item)?;
                let inner = self.flat_body(&c.body, &ops[1..], sink)?;
                Ok(quote!(#b #inner))
            }
            Op::Flatten => {
                let lid = self.loop_id();
                let mut tag = 0;
                let st = match item {
                    Item::Ref(p) => self.src_ref(quote!(& #p), &lid, &mut tag),
                    other => self.src_move(other.ts(), &lid, &mut tag),
                };
                let rest: Vec<Op> = ops[1..].iter().map(clone_op).collect();
                let st = Stream { pre: st.pre, base: st.base, ops: rest };
                self.gen_loop(st, &lid, LoopInfo::default(), sink)
            }
            Op::Filter(c) => {
                let b = self.bind(&c.inputs[0], item.refof())?;
                let body = self.closure_body(c)?;
                let v = self.newvar("c");
                let rest = self.apply_ops(&ops[1..], item, sink)?;
                Ok(quote!(let #v = { #b #body }; if #v { #rest }))
            }
            Op::TakeWhile(c) => {
                let b = self.bind(&c.inputs[0], item.refof())?;
                let body = self.closure_body(c)?;
                let v = self.newvar("c");
                let rest = self.apply_ops(&ops[1..], item, sink)?;
                Ok(quote!(let #v = { #b #body }; if !#v { break; } #rest))
            }
            Op::FilterMap(c) => {
                let b = self.bind(&c.inputs[0], item)?;
                let body = self.closure_body(c)?;
                let v = self.newvar("m");
                let rest = self.apply_ops(&ops[1..], Item::Expr(quote!(#v)), sink)?;
                let w = self.newvar("o");
                Ok(quote!(let #w = { #b #body }; match #w { Some(#v) => { #rest } None => { } }))
            }
        }
    }

    /// closure body used as an inner iterator
    fn flat_body(&mut self, body: &Expr, ops: &[Op<'_>], sink: &mut dyn FnMut(&mut Self, Item) -> R<TS>) -> R<TS> {
        let (pre, tail): (TS, &Expr) = match body {
            Expr::Block(b) => match b.block.stmts.split_last() {
                Some((Stmt::Expr(t, None), before)) => (self.stmts(before)?, t),
                _ => return Err("flatten of unit block".into()),
            },
            other => (TS::new(), other),
        };
        let lid = self.loop_id();
        let mut tag = 0;
        let st = self.into_stream(tail, &lid, &mut tag)?;
        let mut all: Vec<Op> = st.ops;
        all.extend(ops.iter().map(clone_op));
        let st = Stream { pre: st.pre, base: st.base, ops: all };
        let l = self.gen_loop(st, &lid, LoopInfo::default(), sink)?;
        Ok(quote!(#pre #l))
    }

    // ---------------------------------------------------------------- sinks

    fn collect_elem_ty(&self, m: &ExprMethodCall) -> Option<TS> {
        let t = m.turbofish.as_ref()?;
        if let Some(GenericArgument::Type(Type::Path(p))) = t.args.first() {
            if let PathArguments::AngleBracketed(a) = &p.path.segments.last()?.arguments {
                if let Some(GenericArgument::Type(e)) = a.args.first() {
                    if !matches!(e, Type::Infer(_)) {
                        return Some(self.ty(e));
                    }
                }
            }
        }
        None
    }

    fn sink_collect(&mut self, m: &ExprMethodCall) -> R<TS> {
        let lid = self.loop_id();
        let mut tag = 0;
        let st = self.stream(&m.receiver, &lid, &mut tag)?;
        let ov = id(&format!("__out{}", Self::suffix(&lid)));
        let mut info = LoopInfo::default();
        info.alias.insert("out".into(), ov.to_string());
        info.alias.insert("collect".into(), "1".into());
        let o2 = ov.clone();
        let l = self.gen_loop(st, &lid, info, &mut move |_, it| {
            let e = it.ts();
            Ok(quote!(#o2.push(#e);))
        })?;
        let hint = match self.hints.get(&format!("out{}", lid)) {
            Some(h) => Some(h.replace('~', " ").parse::<TS>().map_err(|e| e.to_string())?),
            None => None,
        };
        let decl = match hint.or(self.collect_elem_ty(m)) {
            Some(t) => quote!(let mut #ov: Vec<#t> = Vec::new();),
            None => quote!(let mut #ov = Vec::new();),
        };
        Ok(quote!(({ #decl #l #ov })))
    }

    fn sink_extend(&mut self, m: &ExprMethodCall) -> R<TS> {
        let r = self.expr(&m.receiver)?;
        let push = match &*m.receiver {
            Expr::Path(p) => {
                if p.path.get_ident().and_then(|i| self.kinds.get(&i.to_string())).copied() == Some("deque") {
                    id("push_back")
                } else {
                    id("push")
                }
            }
            _ => id("push"),
        };
        let lid = self.loop_id();
        let mut tag = 0;
        let st = self.into_stream(&m.args[0], &lid, &mut tag)?;
        let mut info = LoopInfo::default();
        info.alias.insert("out".into(), r.to_string());
        let l = self.gen_loop(st, &lid, info, &mut move |_, it| {
            let e = it.ts();
            Ok(quote!(#r.#push(#e);))
        })?;
        Ok(quote!({ #l }))
    }

    fn sink_for_each(&mut self, m: &ExprMethodCall) -> R<TS> {
        let lid = self.loop_id();
        let mut tag = 0;
        let st = self.stream(&m.receiver, &lid, &mut tag)?;
        let c = Self::as_closure(&m.args[0])?;
        let l = self.gen_loop(st, &lid, LoopInfo::default(), &mut |cx, it| {
            let b = cx.bind(&c.inputs[0], it)?;
            let body = cx.closure_body(c)?;
            Ok(quote!(#b #body ;))
        })?;
        Ok(quote!({ #l }))
    }

    fn sink_acc(&mut self, m: &ExprMethodCall, n: &str) -> R<TS> {
        let lid = self.loop_id();
        let mut tag = 0;
        let st = self.stream(&m.receiver, &lid, &mut tag)?;
        let av = id(&format!("__acc{}", Self::suffix(&lid)));
        let mut info = LoopInfo::default();
        info.alias.insert("acc".into(), av.to_string());
        let a2 = av.clone();
        let nn = n.to_string();
        let l = self.gen_loop(st, &lid, info, &mut move |_, it| {
            let e = it.ts();
            Ok(match nn.as_str() {
                "count" => quote!(#a2 = #a2 + 1;),
                "sum" => match &it {
                    Item::Ref(p) => quote!(#a2 = #a2 + #p;),
                    _ => quote!(#a2 = #a2 + #e;),
                },
                _ => quote!(#a2 = #a2 * #e;),
            })
        })?;
        let decl = if n == "count" {
            quote!(let mut #av: usize = 0;)
        } else {
            let t = match &m.turbofish {
                Some(t) => match t.args.first() {
                    Some(GenericArgument::Type(t)) => self.ty(t),
                    _ => quote!(Float),
                },
                None => match self.hints.get(&format!("sum{}", lid)) {
                    Some(h) => {
                        let i = id(h);
                        quote!(#i)
                    }
                    None => quote!(Float),
                },
            };
            let one = n == "product";
            match (t.to_string().as_str(), one) {
                ("usize", false) | ("u32", false) => quote!(let mut #av: #t = 0;),
                (_, false) => quote!(let mut #av: #t = #t::zero();),
                _ => return Err("product".into()),
            }
        };
        Ok(quote!(({ #decl #l #av })))
    }

    fn sink_search(&mut self, m: &ExprMethodCall, n: &str) -> R<TS> {
        let lid = self.loop_id();
        let mut tag = 0;
        let st = self.stream(&m.receiver, &lid, &mut tag)?;
        let st = self.to_indexed(st, &lid, &mut tag)?;
        let sfx = Self::suffix(&lid);
        let iv = id(&format!("__i{}", sfx));
        let hv = id(&format!("__hit{}", sfx));
        let fv = id(&format!("__fm{}", sfx));
        let Base::Idx(ix) = st.base else { unreachable!() };
        let nlen = ix.len.ok_or("infinite search")?;
        let c = Self::as_closure(&m.args[0])?;
        let mut info = LoopInfo::default();
        info.id = lid.clone();
        info.alias.insert("i".into(), iv.to_string());
        info.alias.insert("n".into(), nlen.to_string());
        info.alias.insert("s".into(), format!("__s{}", sfx));
        info.alias.insert("hit".into(), hv.to_string());
        info.alias.insert("fm".into(), fv.to_string());
        let pre = st.pre;
        let backwards = (n == "rposition") != ix.rev;
        if n == "rposition" && ix.rev {
            return Err("rposition of rev".into());
        }
        if n == "position" && ix.rev {
            return Err("position of rev".into());
        }
        if !st.ops.is_empty() && !(n == "any" || n == "all") {
            return Err(format!("{}: search after map", self.key));
        }
        info.auto.push(format!("{} <= {}", iv, nlen));
        if backwards {
            info.auto.push(format!("{} ==> {} < {}", hv, iv, nlen));
            info.decreases = Some(format!("{}", iv));
        } else {
            if n == "position" {
                info.auto.push(format!("{} ==> {} < {}", hv, iv, nlen));
                info.decreases = Some(format!("{} - {} + (if {} {{ 0int }} else {{ 1int }})", nlen, iv, hv));
            } else {
                info.decreases = Some(format!("{} - {}", nlen, iv));
            }
        }
        self.loops.push(info);
        self.enter(&lid);
        let gs = format!("loop{}.start", lid);
        let ge = format!("loop{}.end", lid);
        let gb = format!("loop{}.before", lid);
        let ga = format!("loop{}.after", lid);
        let cv = self.newvar("c");
        let is_fm = n == "find_map";
        let item = (ix.item)(&quote!(#iv));
        let t = match n {
            "position" | "rposition" => {
                let b = self.bind(&c.inputs[0], item)?;
                let body = self.closure_body(c)?;
                if n == "rposition" {
                    quote!(({ #pre let mut #iv: usize = #nlen; let mut #hv: bool = false; __vx_ghost!(#gb);
                        while !#hv && #iv > 0 { __vx_loop!(#lid); #iv = #iv - 1; __vx_ghost!(#gs); let #cv = { #b #body }; if #cv { #hv = true; } __vx_ghost!(#ge); }
                        __vx_ghost!(#ga); if #hv { Some(#iv) } else { None } }))
                } else {
                    quote!(({ #pre let mut #iv: usize = 0; let mut #hv: bool = false; __vx_ghost!(#gb);
                        while !#hv && #iv < #nlen { __vx_loop!(#lid); __vx_ghost!(#gs); let #cv = { #b #body }; if #cv { #hv = true; } else { #iv = #iv + 1; } __vx_ghost!(#ge); }
                        __vx_ghost!(#ga); if #hv { Some(#iv) } else { None } }))
                }
            }
            "any" | "all" => {
                let ops = st.ops;
                let want = n == "any";
                let hv2 = hv.clone();
                let body = self.apply_ops(&ops, (ix.item)(&quote!((#iv - 1))), &mut |cx, it| {
                    let b = cx.bind(&c.inputs[0], it)?;
                    let body = cx.closure_body(c)?;
                    let cv = cx.newvar("c");
                    if want {
                        Ok(quote!(let #cv = { #b #body }; if #cv { #hv2 = true; }))
                    } else {
                        Ok(quote!(let #cv = { #b #body }; if !#cv { #hv2 = true; }))
                    }
                })?;
                let res = if want { quote!(#hv) } else { quote!(!#hv) };
                quote!(({ #pre let mut #iv: usize = 0; let mut #hv: bool = false; __vx_ghost!(#gb);
                    while !#hv && #iv < #nlen { __vx_loop!(#lid); #iv = #iv + 1; __vx_ghost!(#gs); #body __vx_ghost!(#ge); }
                    __vx_ghost!(#ga); #res }))
            }
            _ => {
                // find_map / find
                let it = (ix.item)(&quote!((#iv - 1)));
                let b = if is_fm { self.bind(&c.inputs[0], it.clone())? } else { self.bind(&c.inputs[0], it.refof())? };
                let body = self.closure_body(c)?;
                let upd = if is_fm {
                    quote!(#fv = { #b #body };)
                } else {
                    let e = it.ts();
                    quote!(let #cv = { #b #body }; if #cv { #fv = Some(#e); })
                };
                let fdecl = match self.hints.get(&format!("fm{}", lid)) {
                    Some(h) => { let t: TS = h.replace('~', " ").parse().map_err(|e: proc_macro2::LexError| e.to_string())?; quote!(let mut #fv: Option<#t> = None;) }
                    None => quote!(let mut #fv = None;),
                };
                quote!(({ #pre let mut #iv: usize = 0; #fdecl __vx_ghost!(#gb);
                    while #fv.is_none() && #iv < #nlen { __vx_loop!(#lid); #iv = #iv + 1; __vx_ghost!(#gs); #upd __vx_ghost!(#ge); }
                    __vx_ghost!(#ga); #fv }))
            }
        };
        self.leave();
        Ok(t)
    }

    // ---------------------------------------------------------------- explicit loops

    fn for_loop(&mut self, f: &ExprForLoop) -> R<TS> {
        if f.label.is_some() {
            return Err(format!("{}: labelled loop", self.key));
        }
        let lid = self.loop_id();
        let mut tag = 0;
        let st = self.into_stream(&f.expr, &lid, &mut tag)?;
        let pat = &f.pat;
        let body = &f.body;
        if let (Expr::MethodCall(m), Pat::Ident(i)) = (&*f.expr, &**pat) {
            if matches!(m.method.to_string().as_str(), "windows" | "chunks" | "chunks_exact") {
                self.kinds.insert(i.ident.to_string(), "ref");
            }
        }
        let l = self.gen_loop(st, &lid, LoopInfo::default(), &mut |cx, it| {
            let b = cx.bind(pat, it)?;
            let s = cx.stmts(&body.stmts)?;
            Ok(quote!(#b #s ;))
        })?;
        Ok(quote!({ #l }))
    }

    fn while_loop(&mut self, w: &ExprWhile) -> R<TS> {
        if w.label.is_some() {
            return Err(format!("{}: labelled loop", self.key));
        }
        let lid = self.loop_id();
        let mut info = LoopInfo { id: lid.clone(), ..Default::default() };
        let gs = format!("loop{}.start", lid);
        let ge = format!("loop{}.end", lid);
        let gb = format!("loop{}.before", lid);
        let ga = format!("loop{}.after", lid);
        if let Expr::Let(l) = &*w.cond {
            let x = self.expr(&l.expr)?;
            let p = self.pat(&l.pat)?;
            self.loops.push(info);
            self.enter(&lid);
            let b = self.stmts(&w.body.stmts)?;
            self.leave();
            return Ok(quote!({ __vx_ghost!(#gb); loop { __vx_loop!(#lid); match #x { #p => { __vx_ghost!(#gs); #b ; __vx_ghost!(#ge); } _ => { break; } } } __vx_ghost!(#ga); }));
        }
        if let Expr::Binary(b) = &*w.cond {
            if let Expr::Path(p) = &*b.left {
                if let Some(i) = p.path.get_ident() {
                    info.alias.insert("i".into(), i.to_string());
                }
            }
            if let Expr::Path(p) = &*b.right {
                if let Some(i) = p.path.get_ident() {
                    info.alias.insert("e".into(), i.to_string());
                    info.alias.insert("n".into(), i.to_string());
                }
            }
        }
        let c = self.expr(&w.cond)?;
        self.loops.push(info);
        let slot = self.loops.len() - 1;
        self.enter(&lid);
        let b = self.stmts(&w.body.stmts)?;
        self.leave();
        if let Some(o) = unique_push(&b) {
            self.loops[slot].alias.insert("out".into(), o);
        }
        Ok(quote!({ __vx_ghost!(#gb); while #c { __vx_loop!(#lid); __vx_ghost!(#gs); #b ; __vx_ghost!(#ge); } __vx_ghost!(#ga); }))
    }

    fn loop_loop(&mut self, w: &ExprLoop) -> R<TS> {
        if w.label.is_some() {
            return Err(format!("{}: labelled loop", self.key));
        }
        let lid = self.loop_id();
        self.loops.push(LoopInfo { id: lid.clone(), ..Default::default() });
        self.enter(&lid);
        let b = self.stmts(&w.body.stmts)?;
        self.leave();
        let gs = format!("loop{}.start", lid);
        let ge = format!("loop{}.end", lid);
        let gb = format!("loop{}.before", lid);
        let ga = format!("loop{}.after", lid);
        Ok(quote!({ __vx_ghost!(#gb); loop { __vx_loop!(#lid); __vx_ghost!(#gs); #b ; __vx_ghost!(#ge); } __vx_ghost!(#ga); }))
    }
}

fn clone_op<'e>(o: &Op<'e>) -> Op<'e> {
    match o {
        Op::Map(c) => Op::Map(c),
        Op::Filter(c) => Op::Filter(c),
        Op::FilterMap(c) => Op::FilterMap(c),
        Op::TakeWhile(c) => Op::TakeWhile(c),
        Op::FlatMap(c) => Op::FlatMap(c),
        Op::Flatten => Op::Flatten,
    }
}

fn tagname(t: &mut usize) -> String {
    let n = *t;
    *t += 1;
    if n == 0 {
        String::new()
    } else {
        ((b'a' + n as u8) as char).to_string()
    }
}

pub fn base_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(r) => base_name(&r.elem),
        _ => t.to_token_stream().to_string(),
    }
}

fn unique_push(ts: &TS) -> Option<String> {
    let mut found: HashSet<String> = HashSet::new();
    fn walk(ts: TS, found: &mut HashSet<String>) {
        let v: Vec<proc_macro2::TokenTree> = ts.into_iter().collect();
        for i in 0..v.len() {
            if let proc_macro2::TokenTree::Group(g) = &v[i] {
                walk(g.stream(), found);
            }
            if i + 2 < v.len() {
                if let (proc_macro2::TokenTree::Ident(a), proc_macro2::TokenTree::Punct(p), proc_macro2::TokenTree::Ident(b)) = (&v[i], &v[i + 1], &v[i + 2]) {
                    if p.as_char() == '.' && (b == "push" || b == "push_back") {
                        found.insert(a.to_string());
                    }
                }
            }
        }
    }
    walk(ts.clone(), &mut found);
    if found.len() == 1 {
        found.into_iter().next()
    } else {
        None
    }
}

#[allow(unused)]
fn _unused() {
    let _ = format_ident!("x");
}

fn args_len(a: &syn::PathArguments) -> usize {
    match a {
        syn::PathArguments::AngleBracketed(a) => a.args.len(),
        _ => 0,
    }
}
