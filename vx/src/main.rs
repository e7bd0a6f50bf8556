//! vx: extract functions of the repository under verification into a Verus crate, attach the
//! side-car contracts, and print what was done (JSON) on stdout.
mod contract;
mod lower;
mod source;
use contract::*;
use lower::*;
use proc_macro2::{Delimiter, Ident, Spacing, Span, TokenStream as TS, TokenTree};
use quote::{quote, ToTokens};
use source::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::path::{Path, PathBuf};
use syn::*;

type R<T> = std::result::Result<T, String>;

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// `$i0_1` style references in contract text
fn subst_alias(text: &str, loops: &BTreeMap<String, LoopInfo>, key: &str) -> R<String> {
    let cs: Vec<char> = text.chars().collect();
    let mut o = String::new();
    let mut i = 0;
    while i < cs.len() {
        if cs[i] == '$' && i + 1 < cs.len() && cs[i + 1].is_ascii_lowercase() {
            let mut j = i + 1;
            let mut name = String::new();
            while j < cs.len() && cs[j].is_ascii_lowercase() {
                name.push(cs[j]);
                j += 1;
            }
            let mut num = String::new();
            while j < cs.len() && (cs[j].is_ascii_digit() || (cs[j] == '_' && j + 1 < cs.len() && cs[j + 1].is_ascii_digit())) {
                num.push(cs[j]);
                j += 1;
            }
            let id = num.replace('_', ".");
            let li = loops.get(&id).ok_or(format!("LOST-ANCHOR {}: contract refers to loop {} that is not there", key, id))?;
            let v = li.alias.get(&name).ok_or(format!("LOST-ANCHOR {}: loop {} has no ${}", key, id, name))?;
            o.push_str(v);
            i = j;
        } else {
            o.push(cs[i]);
            i += 1;
        }
    }
    Ok(o)
}

struct Printer<'a> {
    out: String,
    loops: BTreeMap<String, LoopInfo>,
    con: &'a FnContract,
    used_ghost: HashSet<String>,
    canary: Option<&'a mut usize>,
    nodec: bool,
}

impl<'a> Printer<'a> {
    fn marker(ts: &[TokenTree], i: usize) -> Option<(String, String)> {
        // ident ! ( "lit" )
        if i + 2 >= ts.len() {
            return None;
        }
        let TokenTree::Ident(a) = &ts[i] else { return None };
        let a = a.to_string();
        if !a.starts_with("__vx_") {
            return None;
        }
        let TokenTree::Punct(p) = &ts[i + 1] else { return None };
        if p.as_char() != '!' {
            return None;
        }
        let TokenTree::Group(g) = &ts[i + 2] else { return None };
        let l: LitStr = syn::parse2(g.stream()).ok()?;
        Some((a, l.value()))
    }
    fn print(&mut self, ts: TS) -> R<()> {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < v.len() {
            if let Some((m, arg)) = Self::marker(&v, i) {
                match m.as_str() {
                    "__vx_real" => {
                        self.out.push_str(&format!(" Float(Ghost({}real))", arg));
                        i += 3;
                        continue;
                    }
                    "__vx_real32" => {
                        self.out.push_str(&format!(" F32(Ghost({}real))", arg));
                        i += 3;
                        continue;
                    }
                    "__vx_str" => {
                        let cs: Vec<String> = arg.chars().map(|c| format!("{:?}", c)).collect();
                        if cs.is_empty() {
                            self.out.push_str(" Ghost(Seq::<char>::empty())");
                        } else {
                            self.out.push_str(&format!(" Ghost(seq![{}])", cs.join(", ")));
                        }
                        i += 3;
                        continue;
                    }
                    "__vx_ghost" => {
                        if let Some(t) = self.con.ghost.get(&arg) {
                            self.used_ghost.insert(arg.clone());
                            let t = subst_alias(t, &self.loops, &self.con.key)?;
                            self.out.push('\n');
                            self.out.push_str(&t);
                            self.out.push('\n');
                        }
                        i += 3;
                        if i < v.len() {
                            if let TokenTree::Punct(p) = &v[i] {
                                if p.as_char() == ';' {
                                    i += 1;
                                }
                            }
                        }
                        continue;
                    }
                    _ => {}
                }
            }
            match &v[i] {
                TokenTree::Group(g) => match g.delimiter() {
                    Delimiter::Brace => {
                        let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                        let mut skip = 0;
                        let mut can = String::new();
                        let mut post = String::new();
                        if let Some((m, lid)) = Self::marker(&inner, 0) {
                            if m == "__vx_loop" {
                                skip = 3;
                                if inner.len() > 3 {
                                    if let TokenTree::Punct(p) = &inner[3] {
                                        if p.as_char() == ';' {
                                            skip = 4;
                                        }
                                    }
                                }
                                self.loop_clauses(&lid)?;
                                if let Some(c) = self.canary.as_deref_mut() {
                                    let kw = v[..i].iter().rev().find_map(|t| match t { TokenTree::Ident(d) if d == "while" || d == "loop" => Some(d.to_string()), _ => None });
                                    // (what follows a `loop` is reached from its body only)
                                    // only the invariant's consistency matters here: the rest of a body without inner loops is skipped
                                    let inner = self.loops.keys().any(|k| k.starts_with(&format!("{}.", lid)));
                                    can = format!("proof {{ if vx_pick({}) {{ assert(vx_canary({})); // CANARY {} {} loop{}\n assume(false); }} {} }}\n", c, c, c, self.con.key, lid, if inner || kw.as_deref() == Some("loop") { "" } else { "assume(false);" });
                                    *c += 1;
                                    let (pre, k) = match lid.rfind('.') { Some(p) => (&lid[..p + 1], &lid[p + 1..]), None => ("", &lid[..]) };
                                    let k: usize = k.parse().unwrap_or(0);
                                    let last = !self.loops.keys().any(|x| x.starts_with(pre) && x[pre.len()..].parse::<usize>().map_or(false, |j| j > k));
                                    if last && kw.as_deref() == Some("while") {
                                        post = "proof { assume(false); }\n".into();
                                    }
                                }
                            }
                        }
                        self.out.push_str(" {\n");
                        self.out.push_str(&can);
                        let rest: TS = inner[skip..].iter().cloned().collect();
                        self.print(rest)?;
                        self.out.push_str(" }\n");
                        self.out.push_str(&post);
                    }
                    Delimiter::Parenthesis => {
                        self.out.push('(');
                        self.print(g.stream())?;
                        self.out.push(')');
                    }
                    Delimiter::Bracket => {
                        self.out.push('[');
                        self.print(g.stream())?;
                        self.out.push(']');
                    }
                    Delimiter::None => self.print(g.stream())?,
                },
                TokenTree::Punct(p) => {
                    let c = p.as_char();
                    if c == ';' {
                        // drop empty statements
                        let t = self.out.trim_end();
                        if t.ends_with(';') || t.ends_with('{') {
                        } else {
                            self.out.push_str(";\n");
                        }
                    } else if c == '\'' {
                        self.out.push_str(" '");
                    } else if c == '.' {
                        self.out.push('.');
                    } else {
                        let prev_joint = i > 0 && matches!(&v[i-1], TokenTree::Punct(q) if q.spacing() == Spacing::Joint);
                        if !prev_joint {
                            self.out.push(' ');
                        }
                        self.out.push(c);
                        if p.spacing() == Spacing::Alone && c != '&' && c != '!' {
                            self.out.push(' ');
                        }
                    }
                }
                TokenTree::Ident(id) => {
                    let l = self.out.chars().last().unwrap_or(' ');
                    if !(l == '.' || l == '(' || l == '[' || l == '\n' || l == ' ' || l == '&' || l == '\'') {
                        self.out.push(' ');
                    }
                    self.out.push_str(&id.to_string());
                }
                TokenTree::Literal(l) => {
                    let c = self.out.chars().last().unwrap_or(' ');
                    if !(c == '.' || c == '(' || c == '[') {
                        self.out.push(' ');
                    }
                    self.out.push_str(&l.to_string());
                }
            }
            i += 1;
        }
        Ok(())
    }
    fn loop_clauses(&mut self, lid: &str) -> R<()> {
        let li = self.loops.get(lid).cloned().unwrap_or_default();
        let side = self.con.loops.get(lid).cloned().unwrap_or_default();
        let side = subst_alias(&side, &self.loops, &self.con.key)?;
        let mut inv = String::new();
        let noauto = side.contains("#noauto");
        let side = side.replace("#noauto", "");
        let (side_inv, side_dec) = match side.find("decreases") {
            Some(p) => (side[..p].to_string(), Some(side[p..].to_string())),
            None => (side.clone(), None),
        };
        if !noauto {
            for a in &li.auto {
                inv.push_str(&format!("    {},\n", a));
            }
        }
        let si = side_inv.trim();
        if !si.is_empty() {
            inv.push_str(&format!("    {}", si));
            if !si.ends_with(',') {
                inv.push(',');
            }
            inv.push('\n');
        }
        if !inv.is_empty() {
            self.out.push_str("\n  invariant\n");
            self.out.push_str(&inv);
        }
        if !self.nodec {
            match (side_dec, &li.decreases) {
                (Some(d), _) => self.out.push_str(&format!("  {}\n", d.trim_end())),
                (None, Some(d)) => self.out.push_str(&format!("\n  decreases {},\n", d)),
                _ => {}
            }
        }
        Ok(())
    }
}

fn fn_has_mut_self(sig: &Signature) -> bool {
    sig.receiver().map_or(false, |r| r.mutability.is_some() && r.reference.is_some())
}

struct Emitted {
    key: String,
    file: String,
    line: usize,
    end_line: usize,
    notes: Vec<String>,
    inlined: Vec<String>,
    loops: usize,
    start: usize,
    end: usize,
    external: bool,
}

fn emit_fn(
    src: &Source,
    con: &FnContract,
    contracted: &HashSet<String>,
    prelude_fns: &HashSet<String>,
    noinline: &HashSet<String>,
    out: &mut String,
    canary: Option<&mut usize>,
) -> R<Emitted> {
    let key = con.key.clone();
    let cands = src.find(&key);
    if cands.is_empty() {
        return Err(format!("LOST-ANCHOR {}: no such function in the source", key));
    }
    if cands.len() > 1 {
        return Err(format!("LOST-ANCHOR {}: {} functions match", key, cands.len()));
    }
    let f = cands[0].clone();
    let mut subst: HashMap<String, Type> = HashMap::new();
    for s in con.opts_all("inst") {
        let (a, b) = s.split_once(':').ok_or("inst")?;
        subst.insert(a.to_string(), syn::parse_str(&b.replace('~', " ")).map_err(|e| e.to_string())?);
    }
    let mut hints = HashMap::new();
    for h in con.opts_all("hint") {
        let (a, b) = h.split_once(':').ok_or("hint")?;
        hints.insert(a.to_string(), b.to_string());
    }
    let mut renames = HashMap::new();
    for h in con.opts_all("retype") {
        let (a, b) = h.split_once(':').ok_or("retype")?;
        renames.insert(a.to_string(), b.to_string());
    }
    let mut cx = Ctx {
        src,
        contracted,
        prelude_fns,
        noinline,
        key: f.key.clone(),
        self_base: f.self_ty.as_ref().map(base_name),
        path: vec![],
        counters: vec![0],
        loops: vec![],
        kinds: HashMap::new(),
        subst: subst.clone(),
        notes: vec![],
 dedups: 0, sorts: 0,
        inlined: vec![],
        inline_stack: vec![],
        fresh: 0,
        has_return_ghost: con.ghost.contains_key("return"),
        hints,
        self_rename: None,
        ret_into: con.opt("into").map(|s| s.to_string()),
        renames,
    };
    let mut self_name: Option<String> = con.opt("selfname").map(|s| s.to_string());
    // signature
    let names: Vec<String> = con.opt("params").map(|p| p.split(',').map(|s| s.to_string()).collect()).unwrap_or_default();
    let ptypes: HashMap<String, String> = con
        .opts_all("ptype")
        .iter()
        .filter_map(|s| s.split_once(':').map(|(a, b)| (a.to_string(), b.replace('~', " "))))
        .collect();
    let mut params = TS::new();
    let mut binds = TS::new();
    let mut k = 0;
    for inp in &f.sig.inputs {
        match inp {
            FnArg::Receiver(r) => {
                if let Some(sn) = &self_name {
                    // receiver becomes an ordinary parameter (free function form)
                    let i = Ident::new(sn, Span::call_site());
                    let t: Type = f.self_ty.clone().ok_or("receiver without type")?;
                    let t = cx.ty(&t);
                    if r.reference.is_some() {
                        let m = &r.mutability;
                        params.extend(quote!(#i : & #m #t,));
                    } else {
                        params.extend(quote!(#i : #t,));
                    }
                } else if r.reference.is_some() {
                    let m = &r.mutability;
                    params.extend(quote!(& #m self,));
                } else {
                    params.extend(quote!(self,));
                }
            }
            FnArg::Typed(t) => {
                let ty0 = &t.ty;
                let tys = cx.ty(ty0);
                let tstr = ty0.to_token_stream().to_string();
                let (pname, mutable) = match &*t.pat {
                    Pat::Ident(i) => (Some(i.ident.to_string()), i.mutability.is_some()),
                    _ => (None, false),
                };
                let canon = names.get(k).cloned().or(pname.clone()).unwrap_or(format!("__p{}", k));
                let ci = Ident::new(&canon, Span::call_site());
                let kind = if tstr.starts_with("& mut") {
                    None
                } else if tstr.starts_with('&') {
                    Some("ref")
                } else if tstr.contains("VecDeque") {
                    Some("deque")
                } else if tstr.contains("Range") || tys.to_string().starts_with("Range") || tys.to_string().contains("Range <") {
                    Some("range")
                } else if f.sig.generics.type_params().any(|g| g.ident == tstr.as_str() && g.bounds.to_token_stream().to_string().contains("AsRef")) {
                    Some("asref")
                } else {
                    None
                };
                if let Some(kd) = kind {
                    cx.kinds.insert(canon.clone(), kd);
                    if let Some(p) = &pname {
                        cx.kinds.insert(p.clone(), kd);
                    }
                }
                if tstr.contains("VecDeque") {
                    if let Some(p) = &pname {
                        cx.kinds.insert(p.clone(), if tstr.starts_with('&') { "ref" } else { "deque" });
                    }
                }
                let tys = match ptypes.get(&canon) {
                    Some(s) => s.parse::<TS>().map_err(|e| e.to_string())?,
                    None => tys,
                };
                params.extend(quote!(#ci : #tys,));
                let same = pname.as_deref() == Some(canon.as_str());
                if pname.is_some() {
                    let pi = Ident::new(pname.as_ref().unwrap(), Span::call_site());
                    if mutable {
                        binds.extend(quote!(let mut #pi = #ci;));
                    } else if !same && pname.as_deref() != Some("_") {
                        binds.extend(quote!(let #pi = #ci;));
                    }
                } else if !matches!(&*t.pat, Pat::Wild(_)) {
                    let b = destructure(&t.pat, quote!(#ci))?;
                    binds.extend(b);
                }
                k += 1;
            }
        }
    }
    if let Some(sn) = self_name.take() {
        cx.self_rename = Some(Ident::new(&sn, Span::call_site()));
    }
    let ret = match &f.sig.output {
        ReturnType::Default => None,
        ReturnType::Type(_, t) => Some(match con.opt("rtype") {
            Some(s) => s.replace('~', " ").parse::<TS>().map_err(|e| e.to_string())?,
            None => cx.ty(t),
        }),
    };
    // body
    let external = con.opts.contains_key("external");
    if let Some(a) = con.opt("assumed") {
        cx.notes.push(format!("contract of {} assumed here; its obligations are discharged in the unit that owns {}", key, a));
    }
    let stmts = &f.block.stmts;
    let body = if external {
        TS::new()
    } else if cx.has_return_ghost {
        match stmts.split_last() {
            Some((Stmt::Expr(e, None), init)) if ret.is_some() && !matches!(e, Expr::Return(_)) => {
                let a = cx.stmts(init)?;
                let t = cx.expr(e)?;
                quote!(#a let __ret = #t; __vx_ghost!("return"); __ret)
            }
            _ => {
                let a = cx.stmts(stmts)?;
                if ret.is_none() {
                    quote!(#a ; __vx_ghost!("return");)
                } else {
                    a
                }
            }
        }
    } else {
        match stmts.split_last() {
            Some((Stmt::Expr(e, None), init)) if con.ghost.contains_key("tail") => {
                let a = cx.stmts(init)?;
                let t = cx.expr(e)?;
                quote!(#a ; __vx_ghost!("tail"); #t)
            }
            _ => {
                let a = cx.stmts(stmts)?;
                if ret.is_none() {
                    quote!(#a ; __vx_ghost!("end");)
                } else {
                    a
                }
            }
        }
    };
    // anchors
    let loops: BTreeMap<String, LoopInfo> = cx.loops.iter().map(|l| (l.id.clone(), l.clone())).collect();
    for l in con.loops.keys() {
        if external {
            break;
        }
        if !loops.contains_key(l) {
            return Err(format!("LOST-ANCHOR {}: contract has an invariant for loop {} but the function has {} loops", key, l, loops.len()));
        }
    }
    if let Some(n) = con.opt("loops") {
        if !external && n.parse::<usize>().ok() != Some(loops.len()) {
            return Err(format!("LOST-ANCHOR {}: expected {} loops, found {}", key, n, loops.len()));
        }
    }
    let fname = con.opt("rename").unwrap_or(&f.name).to_string();
    let as_ = con.opt("as").unwrap_or("method");
    let retname = con.opt("ret").unwrap_or("ret");
    let mut generics = String::new();
    // remaining generic parameters of the function that were not instantiated
    let gp: Vec<String> = f
        .sig
        .generics
        .params
        .iter()
        .filter_map(|p| match p {
            GenericParam::Type(t) if !subst.contains_key(&t.ident.to_string()) => Some(t.ident.to_string()),
            _ => None,
        })
        .collect();
    if !gp.is_empty() {
        generics = match con.opt("generics") {
            Some(g) => format!("<{}>", g.replace('~', " ")),
            None => format!("<{}>", gp.join(", ")),
        };
    }
    if generics.is_empty() {
        if let Some(g) = con.opt("generics") {
            generics = format!("<{}>", g.replace('~', " "));
        }
    }
    let start = out.matches('\n').count() + 1;
    out.push_str(&format!("// VXFN {} {}:{}\n", key, f.file, f.line));
    let mut close = "";
    if as_ == "method" && f.self_ty.is_some() && cx.self_rename.is_none() {
        let st = cx.ty(f.self_ty.as_ref().unwrap());
        let ig = con.opt("implgen").map(|s| s.replace('~', " ")).unwrap_or_default();
        out.push_str(&format!("impl{} {} {{\n", ig, st));
        close = "}\n";
    } else if let Some(t) = as_.strip_prefix("trait:") {
        let st = cx.ty(f.self_ty.as_ref().unwrap());
        let ig = con.opt("implgen").map(|s| s.replace('~', " ")).unwrap_or_default();
        out.push_str(&format!("impl{} {} for {} {{\n", ig, t.replace('~', " "), st));
        if let Some(x) = con.ghost.get("impl") {
            out.push_str(x);
        }
        close = "}\n";
    }
    if let Some(t) = as_.strip_prefix("impl:") {
        out.push_str(&format!("impl {} {{\n", t.replace('~', " ")));
        close = "}\n";
    }
    for a in con.opts_all("attr") {
        out.push_str(&format!("#[verifier::{}]\n", a.replace('~', " ")));
    }
    if !loops.is_empty() && !con.opts.contains_key("isolate") {
        out.push_str("#[verifier::loop_isolation(false)]\n");
    }
    if external {
        out.push_str("#[verifier::external_body]\n");
    }
    let vis = if as_.starts_with("trait:") || as_ == "bare" { "" } else { "pub " };
    out.push_str(&format!("{}fn {}{}(", vis, fname, generics));
    {
        let empty = FnContract::default();
        let mut p = Printer { out: String::new(), loops: BTreeMap::new(), con: &empty, used_ghost: HashSet::new(), canary: None, nodec: true };
        p.print(params)?;
        out.push_str(&p.out);
        out.push(')');
        if let Some(r) = &ret {
            let mut p = Printer { out: String::new(), loops: BTreeMap::new(), con: &empty, used_ghost: HashSet::new(), canary: None, nodec: true };
            p.print(r.clone())?;
            out.push_str(&format!(" -> ({}: {})", retname, p.out));
        }
    }
    out.push('\n');
    out.push_str(&con.spec);
    out.push_str("{\n");
    let mut canary = canary;
    // `hide(f);` has to come first in a body
    let start_text = con.ghost.get("start").cloned();
    let (hides, start_rest): (String, Option<String>) = match &start_text {
        Some(t) => {
            let mut h = String::new();
            let mut rest: &str = t;
            loop {
                let r = rest.trim_start();
                if r.starts_with("hide(") {
                    let e = r.find(';').map(|x| x + 1).unwrap_or(r.len());
                    h.push_str(&r[..e]);
                    rest = &r[e..];
                } else {
                    break;
                }
            }
            (h, Some(rest.to_string()))
        }
        None => (String::new(), None),
    };
    let canary = if external { None } else { canary };
    let mut canary = canary;
    if !external {
        out.push_str(&hides);
    }
    if !hides.is_empty() {
        out.push('\n');
    }
    if let Some(c) = canary.as_deref_mut() {
        out.push_str(&format!("proof {{ if vx_pick({}) {{ assert(vx_canary({})); // CANARY {} {} start\n assume(false); }} {} }}\n", c, c, c, key, if loops.is_empty() { "assume(false);" } else { "" }));
        *c += 1;
    }
    let mut p = Printer {
        out: String::new(),
        loops: loops.clone(),
        con,
        used_ghost: HashSet::new(),
        canary,
        nodec: con.opts.contains_key("nodec"),
    };
    if let Some(t) = start_rest.as_ref().filter(|_| !external) {
        p.out.push_str(t);
        p.out.push('\n');
        p.used_ghost.insert("start".into());
    }
    if external {
        p.out.push_str("unimplemented!()\n");
    } else {
        p.print(binds)?;
        if let Some(t) = con.ghost.get("entry") {
            p.out.push_str(t);
            p.out.push('\n');
            p.used_ghost.insert("entry".into());
        }
        p.print(body)?;
    }
    for g in con.ghost.keys() {
        if !p.used_ghost.contains(g) && g != "impl" && !external {
            return Err(format!("LOST-ANCHOR {}: no place for ghost block {}", key, g));
        }
    }
    out.push_str(&p.out);
    out.push_str("\n}\n");
    out.push_str(close);
    let end = out.matches('\n').count();
    let _ = fn_has_mut_self(&f.sig);
    Ok(Emitted {
        key,
        file: f.file.clone(),
        line: f.line,
        end_line: f.end_line,
        notes: cx.notes.clone(),
        inlined: cx.inlined.clone(),
        loops: loops.len(),
        start,
        end,
        external,
    })
}

fn destructure(p: &Pat, e: TS) -> R<TS> {
    match p {
        Pat::Ident(i) => {
            let n = &i.ident;
            let m = &i.mutability;
            Ok(quote!(let #m #n = #e;))
        }
        Pat::Wild(_) => Ok(TS::new()),
        Pat::Tuple(t) => {
            let mut o = TS::new();
            for (k, q) in t.elems.iter().enumerate() {
                let k = syn::Index::from(k);
                o.extend(destructure(q, quote!(#e.#k))?);
            }
            Ok(o)
        }
        _ => Err("parameter pattern".into()),
    }
}

fn emit_struct(src: &Source, name: &str, opts: &BTreeMap<String, Vec<String>>, out: &mut String, cx: &Ctx) -> R<()> {
    let it = src.structs.iter().filter(|s| s.0 == name).collect::<Vec<_>>();
    if it.len() != 1 {
        return Err(format!("LOST-ANCHOR struct {}: {} definitions", name, it.len()));
    }
    let drop: HashSet<String> = opts.get("dropfield").cloned().unwrap_or_default().into_iter().collect();
    if let Some(d) = opts.get("derive").and_then(|v| v.first()) {
        out.push_str(&format!("#[derive({})]\n", d));
    }
    match &it[0].1 {
        syn::Item::Struct(s) => {
            let gen = opts.get("generics").and_then(|v| v.first()).map(|g| format!("<{}>", g.replace('~', " "))).unwrap_or_else(|| {
                let ps: Vec<String> = s.generics.params.iter().map(|p| match p {
                    GenericParam::Type(t) => t.ident.to_string(),
                    other => other.to_token_stream().to_string(),
                }).collect();
                if ps.is_empty() { String::new() } else { format!("<{}>", ps.join(", ")) }
            });
            for p in s.generics.params.iter() {
                if let GenericParam::Type(t) = p {
                    out.push_str(&format!("#[verifier::reject_recursive_types({})]\n", t.ident));
                }
            }
            let name = opts.get("rename").and_then(|v| v.first()).cloned().unwrap_or(name.to_string());
            match &s.fields {
                Fields::Named(f) => {
                    out.push_str(&format!("pub struct {}{} {{\n", name, gen));
                    for x in &f.named {
                        let n = x.ident.as_ref().unwrap().to_string();
                        if drop.contains(&n) {
                            continue;
                        }
                        let t = cx.ty(&x.ty);
                        out.push_str(&format!("  pub {}: {},\n", n, t));
                    }
                    out.push_str("}\n");
                }
                Fields::Unnamed(f) => {
                    let ts: Vec<String> = f.unnamed.iter().map(|x| format!("pub {}", cx.ty(&x.ty))).collect();
                    out.push_str(&format!("pub struct {}{}({});\n", name, gen, ts.join(", ")));
                }
                Fields::Unit => out.push_str(&format!("pub struct {};\n", name)),
            }
        }
        syn::Item::Enum(e) => {
            let vs: Vec<String> = e.variants.iter().map(|v| match &v.fields {
                Fields::Unit => Ok(v.ident.to_string()),
                Fields::Unnamed(f) => Ok(format!("{}({})", v.ident, f.unnamed.iter().map(|x| cx.ty(&x.ty).to_string()).collect::<Vec<_>>().join(", "))),
                Fields::Named(_) => Err(format!("enum {} has a variant with named fields", name)),
            }).collect::<std::result::Result<Vec<_>, String>>()?;
            out.push_str(&format!("pub enum {} {{ {} }}\n", name, vs.join(", ")));
        }
        _ => return Err("not a struct or enum".into()),
    }
    Ok(())
}

fn scan_fns(text: &str, set: &mut HashSet<String>) {
    let mut prev = "";
    for w in text.split(|c: char| !(c.is_alphanumeric() || c == '_')) {
        if w.is_empty() {
            continue;
        }
        if prev == "fn" {
            set.insert(w.to_string());
        }
        prev = w;
    }
}

fn expand_uses(path: &Path, seen: &mut HashSet<PathBuf>) -> R<String> {
    let text = std::fs::read_to_string(path).map_err(|e| format!("{}: {}", path.display(), e))?;
    let mut o = String::new();
    for l in text.lines() {
        if let Some(rest) = l.strip_prefix("//@ assume ") {
            // contracts proved in another unit: only their statements are used here
            for f in rest.split_whitespace() {
                let p = path.parent().unwrap().join(f);
                if seen.insert(p.clone()) {
                    let t = expand_uses(&p, seen)?;
                    for l in t.lines() {
                        if ["pub proof fn ", "proof fn ", "pub broadcast proof fn ", "broadcast proof fn "].iter().any(|p| l.starts_with(p)) {
                            o.push_str("#[verifier::external_body] ");
                        }
                        o.push_str(l);
                        if l.starts_with("//@ fn ") && !l.contains(" external") {
                            o.push_str(&format!(" external assumed={}", f));
                        }
                        o.push('\n');
                    }
                    o.push_str("\n//@ end\n");
                }
            }
        } else if let Some(rest) = l.strip_prefix("//@ use ") {
            for f in rest.split_whitespace() {
                let p = path.parent().unwrap().join(f);
                if seen.insert(p.clone()) {
                    o.push_str(&expand_uses(&p, seen)?);
                    o.push_str("\n//@ end\n");
                }
            }
        } else {
            o.push_str(l);
            o.push('\n');
        }
    }
    Ok(o)
}

fn run() -> R<()> {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let repo = PathBuf::from(get("--repo").unwrap_or("/repo".into()));
    let src = Source::load(&repo)?;
    if args.iter().any(|a| a == "--list") {
        for f in &src.fns {
            println!("{}\t{}:{}-{}", f.key, f.file, f.line, f.end_line);
        }
        return Ok(());
    }
    let unit_path = PathBuf::from(get("--unit").ok_or("--unit")?);
    let out_path = PathBuf::from(get("--out").ok_or("--out")?);
    let canary_mode = args.iter().any(|a| a == "--canary");
    let mut seen = HashSet::new();
    let text = expand_uses(&unit_path, &mut seen)?;
    let unit = Unit::parse(&text)?;
    let prelude_dir = unit_path.parent().unwrap().parent().unwrap().join("prelude");
    let mut out = String::new();
    out.push_str("#![allow(unused)]\n#![allow(non_snake_case)]\n#![feature(allocator_api)]\nuse vstd::prelude::*;\n");
    out.push_str("use std::ops::Range;\n");
    out.push_str("use vstd::std_specs::ops::*;\nuse vstd::std_specs::cmp::*;\nuse vstd::std_specs::core::*;\n");
    out.push_str("verus! {\n");
    if canary_mode {
        out.push_str("pub uninterp spec fn vx_canary(k: int) -> bool;\npub uninterp spec fn vx_pick(k: int) -> bool;\n");
    }
    let mut prelude_fns = HashSet::new();
    for inc in &unit.includes {
        let p = prelude_dir.join(inc);
        let t = std::fs::read_to_string(&p).map_err(|e| format!("{}: {}", p.display(), e))?;
        scan_fns(&t, &mut prelude_fns);
        out.push_str(&format!("// ---- prelude {}\n", inc));
        out.push_str(&t);
    }
    for s in &unit.sections {
        if let Section::Raw(t) = s {
            scan_fns(t, &mut prelude_fns);
        }
    }
    let mut contracted: HashSet<String> = HashSet::new();
    for s in &unit.sections {
        if let Section::Fn(f) = s {
            let k = f.key.split_once('#').map(|x| x.1.to_string()).unwrap_or(f.key.clone());
            contracted.insert(k);
        }
    }
    let noinline: HashSet<String> = unit.opts.get("noinline").cloned().unwrap_or_default().into_iter().collect();
    let mut emitted = vec![];
    let mut counter = 0usize;
    let mut errors = vec![];
    let empty = HashSet::new();
    for s in &unit.sections {
        match s {
            Section::Raw(t) => out.push_str(t),
            Section::Struct { name, opts } => {
                let mut renames = HashMap::new();
                for h in opts.get("retype").cloned().unwrap_or_default() {
                    if let Some((a, b)) = h.split_once(':') {
                        renames.insert(a.to_string(), b.to_string());
                    }
                }
                let cx = Ctx {
                    src: &src,
                    contracted: &empty,
                    prelude_fns: &empty,
                    noinline: &empty,
                    key: name.clone(),
                    self_base: None,
                    path: vec![],
                    counters: vec![0],
                    loops: vec![],
                    kinds: HashMap::new(),
                    subst: HashMap::new(),
                    notes: vec![],
 dedups: 0, sorts: 0,
                    inlined: vec![],
                    inline_stack: vec![],
                    fresh: 0,
                    has_return_ghost: false,
                    hints: HashMap::new(),
                    self_rename: None,
                    ret_into: None,
                    renames,
                };
                if let Err(e) = emit_struct(&src, name, opts, &mut out, &cx) {
                    errors.push(e);
                }
            }
            Section::Fn(c) => {
                let can = if canary_mode { Some(&mut counter) } else { None };
                match emit_fn(&src, c, &contracted, &prelude_fns, &noinline, &mut out, can) {
                    Ok(e) => emitted.push(e),
                    Err(e) => errors.push(e),
                }
            }
        }
    }
    out.push_str("\n} // verus!\nfn main() {}\n");
    if let Some(d) = out_path.parent() {
        std::fs::create_dir_all(d).ok();
    }
    let out = out.replace("VecDeque ::", "Vec ::");
    std::fs::write(&out_path, &out).map_err(|e| e.to_string())?;
    let mut j = String::from("{\"functions\":[");
    for (i, e) in emitted.iter().enumerate() {
        if i > 0 {
            j.push(',');
        }
        let l = |v: &Vec<String>| v.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",");
        j.push_str(&format!(
            "{{\"key\":{},\"file\":{},\"line\":{},\"end_line\":{},\"loops\":{},\"start\":{},\"end\":{},\"external\":{},\"notes\":[{}],\"inlined\":[{}]}}",
            jstr(&e.key), jstr(&e.file), e.line, e.end_line, e.loops, e.start, e.end, e.external, l(&e.notes), l(&e.inlined)
        ));
    }
    j.push_str("],\"errors\":[");
    j.push_str(&errors.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","));
    j.push_str(&format!("],\"canaries\":{}}}", counter));
    println!("{}", j);
    if !errors.is_empty() {
        std::process::exit(3);
    }
    Ok(())
}

fn main() {
    if let Err(e) = run() {
        println!("{{\"functions\":[],\"errors\":[{}],\"canaries\":0}}", jstr(&e));
        std::process::exit(3);
    }
}
