//! Index of every item in the crate under verification, built from its current source text.
use std::path::{Path, PathBuf};
use syn::*;

#[derive(Clone)]
pub struct FnItem {
    pub key: String,
    pub name: String,
    pub self_ty: Option<Type>,
    pub trait_name: Option<String>,
    pub impl_generics: Generics,
    pub sig: Signature,
    pub block: Block,
    pub file: String,
    pub line: usize,
    pub end_line: usize,
}

#[derive(Default)]
pub struct Source {
    pub fns: Vec<FnItem>,
    pub structs: Vec<(String, Item)>,
    pub consts: Vec<(String, Expr, Type, String)>,
    pub traits: Vec<(String, ItemTrait)>,
    pub files: Vec<String>,
}

pub fn type_key(t: &Type) -> String {
    use quote::ToTokens;
    // last path segment, generics kept, no spaces
    let mut t = t.clone();
    struct Flat;
    impl visit_mut::VisitMut for Flat {
        fn visit_path_mut(&mut self, p: &mut Path_) {
            while p.segments.len() > 1 {
                let rest: Vec<_> = p.segments.iter().skip(1).cloned().collect();
                p.segments = rest.into_iter().collect();
            }
            p.leading_colon = None;
            visit_mut::visit_path_mut(self, p);
        }
    }
    visit_mut::VisitMut::visit_type_mut(&mut Flat, &mut t);
    let s = t.to_token_stream().to_string();
    s.replace("dyn ", "dyn@").replace(' ', "").replace("dyn@", "dyn ")
}
type Path_ = syn::Path;

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let p = a.path();
        if p.is_ident("test") {
            return true;
        }
        if p.is_ident("cfg") {
            use quote::ToTokens;
            let s = a.meta.to_token_stream().to_string();
            return s.contains("test") && !s.contains("not");
        }
        false
    })
}

impl Source {
    pub fn load(root: &Path) -> std::result::Result<Source, String> {
        let mut src = Source::default();
        let mut files: Vec<PathBuf> = Vec::new();
        fn walk(d: &Path, out: &mut Vec<PathBuf>) {
            let mut es: Vec<_> = std::fs::read_dir(d).unwrap().map(|e| e.unwrap().path()).collect();
            es.sort();
            for p in es {
                if p.is_dir() {
                    walk(&p, out);
                } else if p.extension().map_or(false, |e| e == "rs") {
                    out.push(p);
                }
            }
        }
        walk(&root.join("src"), &mut files);
        for f in files {
            let text = std::fs::read_to_string(&f).map_err(|e| e.to_string())?;
            let ast = syn::parse_file(&text).map_err(|e| format!("{}: {}", f.display(), e))?;
            let rel = f.strip_prefix(root).unwrap().display().to_string();
            src.files.push(rel.clone());
            src.items(&ast.items, &rel);
        }
        Ok(src)
    }

    fn items(&mut self, items: &[Item], file: &str) {
        for it in items {
            match it {
                Item::Mod(m) if !is_test(&m.attrs) => {
                    if let Some((_, its)) = &m.content {
                        self.items(its, file);
                    }
                }
                Item::Fn(f) if !is_test(&f.attrs) => {
                    self.fns.push(FnItem {
                        key: f.sig.ident.to_string(),
                        name: f.sig.ident.to_string(),
                        self_ty: None,
                        trait_name: None,
                        impl_generics: Generics::default(),
                        line: f.sig.ident.span().start().line,
                        end_line: f.block.brace_token.span.close().end().line,
                        sig: f.sig.clone(),
                        block: (*f.block).clone(),
                        file: file.to_string(),
                    });
                }
                Item::Struct(s) => self.structs.push((s.ident.to_string(), it.clone())),
                Item::Enum(s) => self.structs.push((s.ident.to_string(), it.clone())),
                Item::Enum(s) => self.structs.push((s.ident.to_string(), it.clone())),
                Item::Const(c) => {
                    self.consts.push((c.ident.to_string(), (*c.expr).clone(), (*c.ty).clone(), file.to_string()))
                }
                Item::Trait(t) => {
                    for ti in &t.items {
                        if let TraitItem::Fn(f) = ti {
                            if let Some(b) = &f.default {
                                self.fns.push(FnItem {
                                    key: format!("{}::{}", t.ident, f.sig.ident),
                                    name: f.sig.ident.to_string(),
                                    self_ty: None,
                                    trait_name: Some(t.ident.to_string()),
                                    impl_generics: Generics::default(),
                                    line: f.sig.ident.span().start().line,
                                    end_line: b.brace_token.span.close().end().line,
                                    sig: f.sig.clone(),
                                    block: b.clone(),
                                    file: file.to_string(),
                                });
                            }
                        }
                    }
                    self.traits.push((t.ident.to_string(), t.clone()));
                }
                Item::Impl(i) if !is_test(&i.attrs) => {
                    let tk = type_key(&i.self_ty);
                    let tr = i.trait_.as_ref().map(|t| t.1.segments.last().unwrap().ident.to_string());
                    for ii in &i.items {
                        if let ImplItem::Fn(f) = ii {
                            if is_test(&f.attrs) {
                                continue;
                            }
                            self.fns.push(FnItem {
                                key: format!("{}::{}", tk, f.sig.ident),
                                name: f.sig.ident.to_string(),
                                self_ty: Some((*i.self_ty).clone()),
                                trait_name: tr.clone(),
                                impl_generics: i.generics.clone(),
                                line: f.sig.ident.span().start().line,
                                end_line: f.block.brace_token.span.close().end().line,
                                sig: f.sig.clone(),
                                block: f.block.clone(),
                                file: file.to_string(),
                            });
                        }
                    }
                }
                _ => {}
            }
        }
    }

    pub fn find(&self, key: &str) -> Vec<&FnItem> {
        // key may carry a file restriction: "path.rs#key"
        if let Some((file, k)) = key.split_once('#') {
            return self.fns.iter().filter(|f| f.key == k && f.file.ends_with(file)).collect();
        }
        self.fns.iter().filter(|f| f.key == key).collect()
    }
}
