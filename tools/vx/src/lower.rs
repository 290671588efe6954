//! The fixed list of rewriting rules applied to the repository's function bodies. Every rule is a
//! definitional unfolding of a std/serde_json/schemars macro or combinator; nothing is special-cased
//! on the text of a particular function. Rule names are logged for each function.
//!
//!  attrs        attributes, lifetimes' labels and doc comments are dropped
//!  fnptr        `f: fn(A) -> R` parameter -> `f: impl Fn(A) -> R`
//!  paths        `crate::a::b::f` / `alloc::x::Y` / `super::f` -> `f` (`Type::method` kept)
//!  mutparam     `mut x: T` parameter -> `let mut x = x;`
//!  for          `for P in E { B }` -> `for P in v_src(E) { B }`; iterator chains in E -> nested loops / ifs
//!  optflat      `for P in OPT.into_iter().flatten()` -> `if let Some(m) = OPT { for P in m {..} }`
//!  rangefrom    `for i in a.. {B}` -> counter loop
//!  any/all      `it.any(|x| P)` -> loop accumulating `r = r || P` (short circuit kept)
//!  extend       `c.extend(it)` -> loop of single insertions
//!  retain       `v.retain(|x| P)` -> compute the keep mask in a loop, then `v_retain_mask`
//!  collect/next chains -> loops
//!  optclosure   `and_then/map/filter/is_some_and/is_ok_and/unwrap_or_else/map_or(|x| E)` -> the defining match
//!  orinsertwith `e.or_insert_with(|| E)` -> match on the entry
//!  json         `json!(..)` -> explicit Map/Vec construction; `json_schema!` -> `Schema::try_from(..).unwrap()`
//!  matches      `matches!(e, p)` -> match
//!  fmt          `format!`/`write!` with a literal template -> pushes of the pieces
//!  panic        `unreachable!()`/`panic!(..)` -> `v_unreachable()` (requires false)
//!  slicepat     `while let [first, rest @ ..] = s` -> length test + v_split_first / v_split_last
//!  calls        method/function renames to prelude wrappers carrying a contract (see METHOD_MAP, @call)
use proc_macro2::{Delimiter, Ident, Span, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::BTreeSet;
use syn::visit_mut::{self, VisitMut};
use syn::*;

/// methods whose std version has no Verus contract; the prelude defines an extension trait method of
/// the new name whose body is the call of the old one
const METHOD_MAP: &[(&str, &str)] = &[
    ("into", "v_into"),
    ("try_into", "vtry_into"),
    ("entry", "v_entry"),
    ("strip_prefix", "v_strip_prefix"),
    ("strip_suffix", "v_strip_suffix"),
    ("unwrap_or_default", "v_unwrap_or_default"),
    ("starts_with", "v_starts_with"),
    ("contains", "v_contains"),
    ("extend_from_slice", "v_extend_from_slice"),
    ("as_ref", "v_as_ref"),
    ("as_deref", "v_as_deref"),
    ("replace", "v_replace"),
    ("append", "v_append"),
    ("cloned", "v_cloned"),
    ("is_some_and", "v_is_some_and"),
    ("split", "v_split"),
];

const SRC_METHODS: &[&str] = &["iter", "iter_mut", "into_iter", "keys", "values", "values_mut", "chars", "bytes", "split", "drain", "into_values", "into_keys"];
const ADAPTORS: &[&str] = &["filter", "map", "filter_map", "flat_map", "flatten", "cloned", "copied"];
const OPT_METHODS: &[&str] = &["as_object", "as_object_mut", "as_array", "as_array_mut", "as_str"];

fn id(s: &str) -> Ident {
    Ident::new(s, Span::call_site())
}

const CRATES: &[&str] = &["crate", "self", "super", "alloc", "core", "std"];

pub fn flatten_path(p: &mut Path) {
    p.leading_colon = None;
    if p.segments.len() > 1 {
        let first = p.segments[0].ident.to_string();
        if first == "Self" {
            return;
        }
        // keep the last segment, and the one before it when it is a type (capitalised) or primitive
        let n = p.segments.len();
        let prev = p.segments[n - 2].ident.to_string();
        let keep_prev = prev.chars().next().map_or(false, |c| c.is_uppercase()) || ["str", "u8", "u32", "i32", "u64"].contains(&prev.as_str());
        let keep = if keep_prev && !CRATES.contains(&prev.as_str()) { 2 } else { 1 };
        let segs: Vec<_> = p.segments.iter().skip(n - keep).cloned().collect();
        p.segments = segs.into_iter().collect();
    }
}

struct Flat;
impl VisitMut for Flat {
    fn visit_path_mut(&mut self, p: &mut Path) {
        flatten_path(p);
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if let Some(q) = &mut p.qself {
            if q.position == 0 {
                self.visit_type_mut(&mut q.ty);
                for s in p.path.segments.iter_mut() {
                    self.visit_path_segment_mut(s);
                }
                return;
            }
            // <T as path::Trait>::item
            self.visit_type_mut(&mut q.ty);
            let n = q.position;
            q.position = 1;
            p.path.leading_colon = None;
            p.path.segments = p.path.segments.iter().skip(n - 1).cloned().collect();
            for s in p.path.segments.iter_mut() {
                self.visit_path_segment_mut(s);
            }
            return;
        }
        visit_mut::visit_expr_path_mut(self, p);
    }
    fn visit_type_path_mut(&mut self, p: &mut TypePath) {
        if p.qself.is_some() {
            return;
        }
        visit_mut::visit_type_path_mut(self, p);
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
    fn visit_visibility_mut(&mut self, _: &mut Visibility) {}
}

pub fn flatten_impl(i: &mut ItemImpl) {
    Flat.visit_generics_mut(&mut i.generics);
    Flat.visit_type_mut(&mut i.self_ty);
    if let Some((_, p, _)) = &mut i.trait_ {
        Flat.visit_path_mut(p);
    }
}

/// replace the type parameter `from` by a concrete type (monomorphisation) and drop it from the generics
pub fn subst_type(sig: &mut Signature, block: &mut Block, from: &str, to: &Type) {
    struct S<'a> {
        from: &'a str,
        to: &'a Type,
    }
    impl VisitMut for S<'_> {
        fn visit_type_mut(&mut self, t: &mut Type) {
            if let Type::Path(p) = t {
                if p.qself.is_none() && p.path.is_ident(self.from) {
                    *t = self.to.clone();
                    return;
                }
            }
            if let Type::ImplTrait(it) = t {
                let s: String = it.to_token_stream().to_string().chars().filter(|c| !c.is_whitespace()).collect();
                let f: String = self.from.chars().filter(|c| !c.is_whitespace()).collect();
                if s == f {
                    *t = self.to.clone();
                    return;
                }
            }
            visit_mut::visit_type_mut(self, t);
        }
        fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
            if p.qself.is_none() && p.path.segments.len() >= 2 && p.path.segments[0].ident == self.from {
                let to = self.to;
                let rest: Vec<_> = p.path.segments.iter().skip(1).collect();
                let rest = quote!(#(#rest)::*);
                // T::f -> Ty::f when Ty is a plain path
                if let Type::Path(tp) = to {
                    let tp = &tp.path;
                    *p = parse_quote!(#tp::#rest);
                } else {
                    *p = parse_quote!(<#to>::#rest);
                }
            }
            visit_mut::visit_expr_path_mut(self, p);
        }
    }
    let mut s = S { from, to };
    // drop the parameter
    let params: Vec<GenericParam> = sig
        .generics
        .params
        .iter()
        .filter(|p| !matches!(p, GenericParam::Type(t) if t.ident == from))
        .cloned()
        .collect();
    sig.generics.params = params.into_iter().collect();
    if sig.generics.params.is_empty() {
        sig.generics.lt_token = None;
        sig.generics.gt_token = None;
    }
    if let Some(w) = &mut sig.generics.where_clause {
        let preds: Vec<WherePredicate> = w
            .predicates
            .iter()
            .filter(|p| match p {
                WherePredicate::Type(t) => t.bounded_ty.to_token_stream().to_string() != from,
                _ => true,
            })
            .cloned()
            .collect();
        if preds.is_empty() {
            sig.generics.where_clause = None;
        } else {
            w.predicates = preds.into_iter().collect();
        }
    }
    s.visit_signature_mut(sig);
    s.visit_block_mut(block);
}

pub struct Lower {
    pub log: Vec<String>,
    pub error: Option<String>,
    pub nloops: usize,
    calls: Vec<(String, String)>,
    tmp: usize,
    seen: BTreeSet<String>,
    prelude: Vec<Stmt>,
    /// string constants, replaced by their literal
    pub consts: std::collections::BTreeMap<String, Expr>,
    /// constant lists, replaced by a call of `exec_NAME()`
    pub lists: BTreeSet<String>,
}

/// unfold calls of helper functions that have no contract of their own (no `return`, no `?`, not recursive)
pub fn inline_helpers(b: &mut Block, helpers: &std::collections::BTreeMap<String, (Signature, Block)>, known: &BTreeSet<String>) -> Vec<String> {
    struct HasRet(bool);
    impl VisitMut for HasRet {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            match e {
                Expr::Return(_) | Expr::Try(_) => self.0 = true,
                Expr::Closure(_) => return,
                _ => {}
            }
            visit_mut::visit_expr_mut(self, e);
        }
    }
    struct I<'a> {
        helpers: &'a std::collections::BTreeMap<String, (Signature, Block)>,
        known: &'a BTreeSet<String>,
        depth: usize,
        n: usize,
        log: Vec<String>,
        local: BTreeSet<String>,
    }
    impl I<'_> {
        fn subst(&mut self, key: &str, args: Vec<Expr>) -> Option<Expr> {
            if self.depth >= 3 {
                return None;
            }
            let (sig, body) = self.helpers.get(key)?.clone();
            let mut b = body;
            let mut r = HasRet(false);
            r.visit_block_mut(&mut b);
            if r.0 {
                return None;
            }
            let generics: BTreeSet<String> = sig.generics.params.iter().filter_map(|p| if let GenericParam::Type(t) = p { Some(t.ident.to_string()) } else { None }).collect();
            let params: Vec<_> = sig.inputs.iter().filter_map(|a| if let FnArg::Typed(t) = a { Some(t.clone()) } else { None }).collect();
            if params.len() != args.len() {
                return None;
            }
            self.n += 1;
            let mut pre: Vec<Stmt> = vec![];
            let mut post: Vec<Stmt> = vec![];
            for (i, (p, a)) in params.iter().zip(args).enumerate() {
                let mut ty = (*p.ty).clone();
                struct Lt;
                impl VisitMut for Lt {
                    fn visit_type_reference_mut(&mut self, t: &mut TypeReference) {
                        t.lifetime = None;
                        visit_mut::visit_type_reference_mut(self, t);
                    }
                }
                Lt.visit_type_mut(&mut ty);
                let txt = ty.to_token_stream().to_string();
                let opaque = txt.contains("impl ") || txt.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| generics.contains(w));
                let pat = &p.pat;
                if matches!((&**pat, &a), (Pat::Ident(pi), Expr::Path(ap)) if ap.path.is_ident(&pi.ident)) {
                    continue;
                }
                if params.len() == 1 {
                    pre.push(if opaque { parse_quote!(let #pat = #a;) } else { parse_quote!(let #pat: #ty = #a;) });
                } else {
                    let t = id(&format!("__h{}_{}", self.n, i));
                    pre.push(if opaque { parse_quote!(let #t = #a;) } else { parse_quote!(let #t: #ty = #a;) });
                    post.push(parse_quote!(let #pat = #t;));
                }
            }
            self.log.push(key.to_string());
            self.depth += 1;
            self.visit_block_mut(&mut b);
            self.depth -= 1;
            let st = b.stmts;
            Some(parse_quote!({ #(#pre)* #(#post)* #(#st)* }))
        }
    }
    impl VisitMut for I<'_> {
        fn visit_item_mut(&mut self, _: &mut Item) {}
        fn visit_block_mut(&mut self, b: &mut Block) {
            for s in &b.stmts {
                if let Stmt::Item(Item::Fn(f)) = s {
                    self.local.insert(f.sig.ident.to_string());
                }
            }
            visit_mut::visit_block_mut(self, b);
        }
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            visit_mut::visit_expr_mut(self, e);
            let r = match e {
                Expr::Call(c) => match &*c.func {
                    Expr::Path(p) if p.qself.is_none() => {
                        let name = p.path.segments.last().unwrap().ident.to_string();
                        let args: Vec<Expr> = c.args.iter().cloned().collect();
                        if self.known.contains(&name) || self.local.contains(&name) {
                            None
                        } else if p.path.segments.len() == 1 {
                            self.subst(&name, args)
                        } else if p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" {
                            self.subst(&format!("self.{name}"), args)
                        } else {
                            None
                        }
                    }
                    _ => None,
                },
                Expr::MethodCall(m) if matches!(&*m.receiver, Expr::Path(p) if p.path.is_ident("self")) => {
                    let name = m.method.to_string();
                    if self.known.contains(&name) {
                        None
                    } else {
                        let args: Vec<Expr> = m.args.iter().cloned().collect();
                        self.subst(&format!("self.{name}"), args)
                    }
                }
                _ => None,
            };
            if let Some(r) = r {
                *e = r;
            }
        }
    }
    let mut v = I { helpers, known, depth: 0, n: 0, log: vec![], local: Default::default() };
    v.visit_block_mut(b);
    v.log
}

fn clean(s: String) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

impl Lower {
    pub fn new(calls: Vec<(String, String)>) -> Self {
        Lower { log: vec![], error: None, nloops: 0, calls, tmp: 0, seen: Default::default(), prelude: vec![], consts: Default::default(), lists: Default::default() }
    }
    fn note(&mut self, r: &str) {
        if self.seen.insert(r.to_string()) {
            self.log.push(r.to_string());
        }
    }
    fn err(&mut self, e: impl Into<String>) {
        if self.error.is_none() {
            self.error = Some(e.into());
        }
    }
    fn fresh(&mut self, p: &str) -> Ident {
        self.tmp += 1;
        id(&format!("__{}{}", p, self.tmp))
    }

    pub fn lower_sig(&mut self, sig: &mut Signature) {
        Flat.visit_signature_mut(sig);
        sig.constness = None;
        for a in sig.inputs.iter_mut() {
            match a {
                FnArg::Typed(t) => {
                    if let Type::BareFn(b) = &*t.ty {
                        let (i, o) = (b.inputs.iter().map(|a| a.ty.clone()).collect::<Vec<_>>(), b.output.clone());
                        t.ty = Box::new(parse_quote!(impl Fn(#(#i),*) #o));
                        self.note("fnptr");
                    }
                    if let Pat::Ident(p) = &mut *t.pat {
                        if p.mutability.is_some() {
                            p.mutability = None;
                            let i = p.ident.clone();
                            self.prelude.push(parse_quote!(let mut #i = #i;));
                            self.note("mutparam");
                        }
                    } else if let Pat::Wild(_) = &*t.pat {
                        let f = self.fresh("arg");
                        t.pat = Box::new(parse_quote!(#f));
                    }
                }
                FnArg::Receiver(r) => {
                    if r.reference.is_none() && r.mutability.is_some() {
                        r.mutability = None;
                        self.prelude.push(parse_quote!(let mut __self = self;));
                        self.note("mutself");
                    }
                }
            }
        }
    }

    pub fn lower_block(&mut self, b: &mut Block) {
        Flat.visit_block_mut(b);
        // `mut self` receivers: rename in the body
        if self.seen.contains("mutself") {
            struct R;
            impl VisitMut for R {
                fn visit_ident_mut(&mut self, i: &mut Ident) {
                    if i == "self" {
                        *i = id("__self");
                    }
                }
                fn visit_macro_mut(&mut self, m: &mut Macro) {
                    m.tokens = ren(m.tokens.clone());
                }
            }
            fn ren(t: TokenStream) -> TokenStream {
                t.into_iter()
                    .map(|t| match t {
                        TokenTree::Ident(i) if i == "self" => TokenTree::Ident(id("__self")),
                        TokenTree::Group(g) => TokenTree::Group(proc_macro2::Group::new(g.delimiter(), ren(g.stream()))),
                        o => o,
                    })
                    .collect()
            }
            R.visit_block_mut(b);
        }
        let mut pre = std::mem::take(&mut self.prelude);
        self.visit_block_mut(b);
        pre.append(&mut b.stmts);
        b.stmts = pre;
    }

    // ---------------------------------------------------------------- iterator chains
    /// is `e` a method chain rooted in an iterator source?
    fn is_chain(e: &Expr) -> bool {
        match e {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                SRC_METHODS.contains(&n.as_str()) && !(n == "split" && false) || (ADAPTORS.contains(&n.as_str()) && Self::is_chain(&m.receiver))
            }
            Expr::Paren(p) => Self::is_chain(&p.expr),
            _ => false,
        }
    }

    fn is_opt_expr(e: &Expr) -> bool {
        matches!(e, Expr::MethodCall(m) if OPT_METHODS.contains(&m.method.to_string().as_str()))
    }

    fn closure1(c: &Expr) -> Option<(Pat, Expr)> {
        match c {
            Expr::Closure(c) if c.inputs.len() == 1 => {
                let p = match &c.inputs[0] {
                    Pat::Type(t) => (*t.pat).clone(),
                    p => p.clone(),
                };
                Some((p, (*c.body).clone()))
            }
            _ => None,
        }
    }

    /// the body of a closure that is inlined: `?` and `return` in it would leave the closure, not the function
    fn settle(&mut self, mut b: Expr) -> Expr {
        struct C {
            tries: usize,
            rets: usize,
            calls: usize,
        }
        impl<'a> syn::visit::Visit<'a> for C {
            fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
            fn visit_expr_try(&mut self, t: &'a syn::ExprTry) {
                self.tries += 1;
                if has_try(&t.expr) {
                    self.tries += 1;
                }
            }
            fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) {
                self.rets += 1;
            }
            fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
                if m.method != "push" {
                    self.calls += 1;
                }
                syn::visit::visit_expr_method_call(self, m);
            }
            fn visit_expr_call(&mut self, m: &'a syn::ExprCall) {
                if !["Some", "Ok", "Vec :: new"].contains(&m.func.to_token_stream().to_string().as_str()) {
                    self.calls += 1;
                }
                syn::visit::visit_expr_call(self, m);
            }
            fn visit_macro(&mut self, m: &'a syn::Macro) {
                let t = m.tokens.to_string();
                if t.contains('?') || t.contains("return") {
                    self.rets += 1;
                }
            }
        }
        fn has_try(e: &Expr) -> bool {
            let mut c = C { tries: 0, rets: 0, calls: 0 };
            syn::visit::Visit::visit_expr(&mut c, e);
            c.tries > 0 || c.rets > 0
        }
        let mut c = C { tries: 0, rets: 0, calls: 0 };
        syn::visit::Visit::visit_expr(&mut c, &b);
        if c.tries == 0 && c.rets == 0 {
            return b;
        }
        if c.tries == 1 && c.rets == 0 && c.calls == 0 {
            // the only thing that runs before `x?` is the making of empty containers
            struct R {
                to: Ident,
                found: Option<Expr>,
            }
            impl VisitMut for R {
                fn visit_expr_closure_mut(&mut self, _: &mut syn::ExprClosure) {}
                fn visit_expr_mut(&mut self, e: &mut Expr) {
                    if let Expr::Try(t) = e {
                        self.found = Some((*t.expr).clone());
                        let to = &self.to;
                        *e = parse_quote!(#to);
                        return;
                    }
                    visit_mut::visit_expr_mut(self, e);
                }
            }
            self.note("closure?");
            let to = self.fresh("t");
            let mut r = R { to: to.clone(), found: None };
            r.visit_expr_mut(&mut b);
            let x = r.found.unwrap();
            return parse_quote!(match #x { Some(#to) => #b, None => None });
        }
        self.err("`?` or return in a closure");
        b
    }
    /// apply a closure or a function path to an argument expression
    fn apply(&mut self, f: &Expr, arg: &Expr) -> Expr {
        if let Some((p, mut body)) = Self::closure1(f) {
            self.visit_expr_mut(&mut body);
            body = self.settle(body);
            if let Pat::Ident(pi) = &p {
                if let Expr::Path(ap) = arg {
                    if ap.path.is_ident(&pi.ident) {
                        return body;
                    }
                }
            }
            return parse_quote!({ let #p = #arg; #body });
        }
        let mut f = f.clone();
        // Map::keys and similar path functions stay as they are
        self.visit_expr_mut(&mut f);
        let mut call: Expr = parse_quote!(#f(#arg));
        self.rename_call(&mut call);
        call
    }

    /// statements running `body` for each item of the chain (body gets the item as an expression)
    fn chain(&mut self, e: &Expr, body: &mut dyn FnMut(&mut Self, Expr) -> Vec<Stmt>) -> Vec<Stmt> {
        match e {
            Expr::Paren(p) => return self.chain(&p.expr, body),
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if ADAPTORS.contains(&n.as_str()) && Self::is_chain(&m.receiver) {
                    self.note(&format!("chain:{n}"));
                    let arg = m.args.first().cloned();
                    // OPT.into_iter().flatten() / OPT.iter().filter_map(..)
                    return match n.as_str() {
                        "filter" => self.chain(&m.receiver, &mut |s, x| {
                            let v = s.fresh("x");
                            let c = s.apply(arg.as_ref().unwrap(), &parse_quote!(&#v));
                            let b = body(s, parse_quote!(#v));
                            vec![parse_quote!(let #v = #x;), parse_quote!(if #c { #(#b)* })]
                        }),
                        "map" => self.chain(&m.receiver, &mut |s, x| {
                            let v = s.fresh("x");
                            let c = s.apply(arg.as_ref().unwrap(), &x);
                            let mut b = body(s, parse_quote!(#v));
                            b.insert(0, parse_quote!(let #v = #c;));
                            b
                        }),
                        "cloned" | "copied" => self.chain(&m.receiver, &mut |s, x| {
                            let v = s.fresh("x");
                            let mut b = body(s, parse_quote!(#v));
                            b.insert(0, if n == "cloned" { parse_quote!(let #v = #x.clone();) } else { parse_quote!(let #v = *#x;) });
                            b
                        }),
                        "filter_map" => self.chain(&m.receiver, &mut |s, x| {
                            let v = s.fresh("x");
                            let c = s.apply(arg.as_ref().unwrap(), &x);
                            let b = body(s, parse_quote!(#v));
                            vec![parse_quote!(if let Some(#v) = #c { #(#b)* })]
                        }),
                        "flat_map" => self.chain(&m.receiver, &mut |s, x| {
                            let c = s.apply(arg.as_ref().unwrap(), &x);
                            let txt = clean(arg.as_ref().unwrap().to_token_stream().to_string());
                            if txt.ends_with("::try_from") {
                                let v = s.fresh("x");
                                let b = body(s, parse_quote!(#v));
                                vec![parse_quote!(if let Ok(#v) = #c { #(#b)* })]
                            } else {
                                s.src_loop(c, body)
                            }
                        }),
                        "flatten" => {
                            if let Expr::MethodCall(r) = &*m.receiver {
                                if (r.method == "into_iter" || r.method == "iter") && Self::is_opt_expr(&r.receiver) {
                                    self.note("optflat");
                                    let v = self.fresh("m");
                                    let mut o = (*r.receiver).clone();
                                    self.visit_expr_mut(&mut o);
                                    let b = self.src_loop(parse_quote!(#v), body);
                                    return vec![parse_quote!(if let Some(#v) = #o { #(#b)* })];
                                }
                            }
                            self.chain(&m.receiver, &mut |s, x| s.src_loop(x, body))
                        }
                        _ => unreachable!(),
                    };
                }
                if (n == "into_iter" || n == "iter") && Self::is_opt_expr(&m.receiver) {
                    // 0/1 element source
                    self.note("optsrc");
                    let v = self.fresh("m");
                    let mut o = (*m.receiver).clone();
                    self.visit_expr_mut(&mut o);
                    let b = body(self, if n == "iter" { parse_quote!(&#v) } else { parse_quote!(#v) });
                    return vec![parse_quote!(if let Some(#v) = #o { #(#b)* })];
                }
                if SRC_METHODS.contains(&n.as_str()) {
                    let mut r = (*m.receiver).clone();
                    self.visit_expr_mut(&mut r);
                    let args: Vec<Expr> = m
                        .args
                        .iter()
                        .cloned()
                        .map(|mut a| {
                            self.visit_expr_mut(&mut a);
                            a
                        })
                        .collect();
                    let vm = id(&format!("vs_{n}"));
                    return self.raw_loop(parse_quote!(#r.#vm(#(#args),*)), body);
                }
            }
            _ => {}
        }
        let mut e = e.clone();
        self.visit_expr_mut(&mut e);
        self.src_loop(e, body)
    }
    fn src_loop(&mut self, e: Expr, body: &mut dyn FnMut(&mut Self, Expr) -> Vec<Stmt>) -> Vec<Stmt> {
        let e: Expr = match e {
            Expr::Range(_) => e,
            e => parse_quote!((#e).vs_into_iter()),
        };
        self.raw_loop(e, body)
    }
    fn raw_loop(&mut self, e: Expr, body: &mut dyn FnMut(&mut Self, Expr) -> Vec<Stmt>) -> Vec<Stmt> {
        let n = self.nloops;
        self.nloops += 1;
        let v = id(&format!("__e{n}"));
        let b = body(self, parse_quote!(#v));
        let nn = LitInt::new(&n.to_string(), Span::call_site());
        let vit = id(&format!("__vit_{n}"));
        if matches!(e, Expr::Range(_)) {
            return vec![
                parse_quote!(for #v in #vit(#e) { __VINV!(#nn); #(#b)* __VLE!(#nn); }),
                parse_quote!(__VAL!(#nn);),
            ];
        }
        let src = id(&format!("__s{n}"));
        vec![
            parse_quote!(let #src = #e;),
            parse_quote!(__VQ!(#nn);),
            parse_quote!(for #v in #vit(#src) { __VINV!(#nn); #(#b)* __VLE!(#nn); }),
            parse_quote!(__VAL!(#nn);),
        ]
    }

    fn for_loop(&mut self, f: &ExprForLoop) -> Expr {
        self.note("for");
        let pat = (*f.pat).clone();
        let mut src = &*f.expr;
        while let Expr::Paren(p) = src {
            src = &p.expr;
        }
        // for i in a..
        if let Expr::Range(r) = src {
            if r.end.is_none() {
                self.note("rangefrom");
                let mut a = (**r.start.as_ref().unwrap()).clone();
                self.visit_expr_mut(&mut a);
                let n = self.nloops;
                self.nloops += 1;
                let nn = LitInt::new(&n.to_string(), Span::call_site());
                let c = id(&format!("__c{n}"));
                let mut b = f.body.clone();
                self.visit_block_mut(&mut b);
                let stmts = &b.stmts;
                let lit = matches!(&a, Expr::Lit(ExprLit { lit: Lit::Int(l), .. }) if l.suffix().is_empty());
                let a: Expr = match &a {
                    Expr::Lit(ExprLit { lit: Lit::Int(l), .. }) if l.suffix().is_empty() => {
                        let l = LitInt::new(&format!("{}i32", l.base10_digits()), Span::call_site());
                        parse_quote!(#l)
                    }
                    o => o.clone(),
                };
                let next: Expr = if lit { parse_quote!(v_range_next(#c)) } else { parse_quote!(#c + 1) };
                return parse_quote!({
                    let mut #c = #a;
                    loop { __VINV!(#nn); let #pat = #c; #c = #next; #(#stmts)* __VLE!(#nn); }
                });
            }
            let n = self.nloops;
            self.nloops += 1;
            let nn = LitInt::new(&n.to_string(), Span::call_site());
            let vit = id(&format!("__vit_{n}"));
            let mut e = src.clone();
            self.visit_expr_mut(&mut e);
            let mut b = f.body.clone();
            self.visit_block_mut(&mut b);
            let stmts = &b.stmts;
            return parse_quote!({ for #pat in #vit(#e) { __VINV!(#nn); #(#stmts)* __VLE!(#nn); } __VAL!(#nn); });
        }
        let fbody = f.body.clone();
        let loops_before = self.nloops;
        let stmts = self.chain(src, &mut |s, x| {
            let mut b = fbody.clone();
            s.visit_block_mut(&mut b);
            // the item pattern
            let mut out: Vec<Stmt> = vec![];
            let simple = matches!((&pat, &x), (Pat::Ident(p), Expr::Path(xp)) if xp.path.is_ident(&p.ident));
            if !simple {
                out.push(parse_quote!(let #pat = #x;));
            }
            out.extend(b.stmts);
            out
        });
        let _ = loops_before;
        parse_quote!({ #(#stmts)* })
    }

    // ---------------------------------------------------------------- json!
    fn json(&mut self, ts: TokenStream) -> Expr {
        let toks: Vec<TokenTree> = ts.clone().into_iter().collect();
        if toks.len() == 1 {
            match &toks[0] {
                TokenTree::Ident(i) if i == "null" => return parse_quote!(Value::Null),
                TokenTree::Ident(i) if i == "true" => return parse_quote!(Value::Bool(true)),
                TokenTree::Ident(i) if i == "false" => return parse_quote!(Value::Bool(false)),
                TokenTree::Group(g) if g.delimiter() == Delimiter::Bracket => {
                    let els = split_commas(g.stream());
                    let v = self.fresh("arr");
                    let mut st: Vec<Stmt> = vec![];
                    for e in els {
                        let x = self.json(e);
                        st.push(parse_quote!(#v.push(#x);));
                    }
                    return parse_quote!({ let mut #v: Vec<Value> = Vec::new(); #(#st)* Value::Array(#v) });
                }
                TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => {
                    let els = split_commas(g.stream());
                    let v = self.fresh("obj");
                    let mut st: Vec<Stmt> = vec![];
                    for e in els {
                        // KEY : VALUE at top level (skip `::`)
                        let tv: Vec<TokenTree> = e.into_iter().collect();
                        let mut pos = None;
                        let mut i = 0;
                        while i < tv.len() {
                            if let TokenTree::Punct(p) = &tv[i] {
                                if p.as_char() == ':' {
                                    if p.spacing() == proc_macro2::Spacing::Joint {
                                        i += 2;
                                        continue;
                                    }
                                    pos = Some(i);
                                    break;
                                }
                            }
                            i += 1;
                        }
                        let Some(pos) = pos else {
                            self.err("json!: object entry without ':'");
                            return parse_quote!(());
                        };
                        let k: TokenStream = tv[..pos].iter().cloned().collect();
                        let val: TokenStream = tv[pos + 1..].iter().cloned().collect();
                        let Ok(mut k) = syn::parse2::<Expr>(k) else {
                            self.err("json!: key");
                            return parse_quote!(());
                        };
                        Flat.visit_expr_mut(&mut k);
                        self.visit_expr_mut(&mut k);
                        let x = self.json(val);
                        st.push(parse_quote!(#v.insert((#k).v_key(), #x);));
                    }
                    return parse_quote!({ let mut #v: Map<String, Value> = Map::new(); #(#st)* Value::Object(#v) });
                }
                _ => {}
            }
        }
        match syn::parse2::<Expr>(ts) {
            Ok(mut e) => {
                Flat.visit_expr_mut(&mut e);
                self.visit_expr_mut(&mut e);
                parse_quote!((#e).v_to_value())
            }
            Err(_) => {
                self.err("json!: expression");
                parse_quote!(())
            }
        }
    }

    fn fmt_pieces(&mut self, template: &str, args: &[Expr]) -> Option<Vec<Expr>> {
        // returns expressions of type String-appendable: each is a call `v_fmt_*(..)` returning String
        let mut out: Vec<Expr> = vec![];
        let mut lit = String::new();
        let mut next = 0usize;
        let cs: Vec<char> = template.chars().collect();
        let mut i = 0;
        while i < cs.len() {
            let c = cs[i];
            if c == '{' {
                if cs.get(i + 1) == Some(&'{') {
                    lit.push('{');
                    i += 2;
                    continue;
                }
                let mut j = i + 1;
                while j < cs.len() && cs[j] != '}' {
                    j += 1;
                }
                let inner: String = cs[i + 1..j].iter().collect();
                i = j + 1;
                let (name, spec) = match inner.split_once(':') {
                    Some((a, b)) => (a.to_string(), b.to_string()),
                    None => (inner, String::new()),
                };
                let arg: Expr = if name.is_empty() {
                    let a = args.get(next)?.clone();
                    next += 1;
                    a
                } else {
                    let n = id(&name);
                    parse_quote!(#n)
                };
                if !lit.is_empty() {
                    let l = LitStr::new(&lit, Span::call_site());
                    out.push(parse_quote!((#l).v_display()));
                    lit.clear();
                }
                let f = match spec.as_str() {
                    "" => "v_display",
                    "02X" => "v_fmt_02X",
                    "2X" => "v_fmt_2X",
                    "02x" => "v_fmt_02x",
                    "X" => "v_fmt_X",
                    "x" => "v_fmt_x",
                    "?" => return None,
                    _ => return None,
                };
                let f = id(f);
                out.push(parse_quote!((#arg).#f()));
            } else if c == '}' {
                lit.push('}');
                i += 2;
            } else {
                lit.push(c);
                i += 1;
            }
        }
        if !lit.is_empty() {
            let l = LitStr::new(&lit, Span::call_site());
            out.push(parse_quote!((#l).v_display()));
        }
        Some(out)
    }

    fn macro_expr(&mut self, m: &Macro) -> Option<Expr> {
        let name = m.path.segments.last().unwrap().ident.to_string();
        match name.as_str() {
            "json" => {
                self.note("json");
                Some(self.json(m.tokens.clone()))
            }
            "json_schema" => {
                self.note("json_schema");
                let toks: Vec<TokenTree> = m.tokens.clone().into_iter().collect();
                if toks.len() == 1 {
                    if let TokenTree::Ident(i) = &toks[0] {
                        if i == "true" || i == "false" {
                            return Some(parse_quote!(schema_from_bool(#i)));
                        }
                    }
                }
                let v = self.json(m.tokens.clone());
                Some(parse_quote!(schema_try_from(#v).unwrap()))
            }
            "matches" => {
                self.note("matches");
                struct M(Expr, Pat, Option<Expr>);
                impl parse::Parse for M {
                    fn parse(i: parse::ParseStream) -> Result<Self> {
                        let e = i.parse()?;
                        i.parse::<Token![,]>()?;
                        let p = Pat::parse_multi_with_leading_vert(i)?;
                        let g = if i.peek(Token![if]) {
                            i.parse::<Token![if]>()?;
                            Some(i.parse()?)
                        } else {
                            None
                        };
                        let _ = i.parse::<Token![,]>();
                        Ok(M(e, p, g))
                    }
                }
                let M(mut e, mut p, g) = syn::parse2(m.tokens.clone()).ok()?;
                Flat.visit_expr_mut(&mut e);
                Flat.visit_pat_mut(&mut p);
                self.visit_expr_mut(&mut e);
                Some(match g {
                    None => parse_quote!(match #e { #p => true, _ => false }),
                    Some(mut g) => {
                        Flat.visit_expr_mut(&mut g);
                        self.visit_expr_mut(&mut g);
                        parse_quote!(match #e { #p if #g => true, _ => false })
                    }
                })
            }
            "unreachable" | "panic" => {
                self.note("panic");
                Some(parse_quote!(v_unreachable()))
            }
            "format" | "write" => {
                self.note("fmt");
                let args = punctuated::Punctuated::<Expr, Token![,]>::parse_terminated;
                let args = parse::Parser::parse2(args, m.tokens.clone()).ok()?;
                let mut args: Vec<Expr> = args.into_iter().collect();
                for a in args.iter_mut() {
                    Flat.visit_expr_mut(a);
                    self.visit_expr_mut(a);
                }
                let target = if name == "write" { Some(args.remove(0)) } else { None };
                let t = args.remove(0);
                let Expr::Lit(ExprLit { lit: Lit::Str(t), .. }) = t else { return None };
                let pieces = self.fmt_pieces(&t.value(), &args)?;
                let v = self.fresh("f");
                Some(match target {
                    None => parse_quote!({ let mut #v = String::new(); #(#v.v_append_string(#pieces);)* #v }),
                    Some(t) => parse_quote!({ #(#t.v_append_string(#pieces);)* v_fmt_ok() }),
                })
            }
            "vec" => {
                // keep, but lower the elements
                let args = punctuated::Punctuated::<Expr, Token![,]>::parse_terminated;
                let args = parse::Parser::parse2(args, m.tokens.clone()).ok()?;
                let mut args: Vec<Expr> = args.into_iter().collect();
                for a in args.iter_mut() {
                    Flat.visit_expr_mut(a);
                    self.visit_expr_mut(a);
                }
                let v = self.fresh("v");
                Some(parse_quote!({ let mut #v = Vec::new(); #(#v.push(#args);)* #v }))
            }
            // the value as JSON if its type implements Serialize (autoref specialisation)
            "_schemars_maybe_to_value" => {
                let mut a: Expr = m.parse_body().ok()?;
                self.visit_expr_mut(&mut a);
                self.note("maybe_to_value");
                Some(parse_quote!(v_maybe_to_value(#a)))
            }
            "__VINV" | "__VLE" | "__VAL" | "__VQ" => None,
            _ => {
                self.err(format!("macro {name}! not supported"));
                None
            }
        }
    }

    fn rename_call(&mut self, e: &mut Expr) {
        if let Expr::Call(c) = e {
            let f = clean(c.func.to_token_stream().to_string());
            for (a, b) in &self.calls {
                if clean(a.clone()) == f {
                    c.func = Box::new(syn::parse_str(b).expect("@call target"));
                    return;
                }
            }
            let t = match f.as_str() {
                "<&mutSchema>::try_from" => "schema_try_from_mut",
                "<&Schema>::try_from" => "schema_try_from_ref",
                "Schema::try_from" => "schema_try_from",
                "Schema::from" => "schema_from",
                "Value::from" | "String::from" => {
                    let ty: Path = syn::parse_str(f.trim_end_matches("::from")).unwrap();
                    self.note("call:from");
                    c.func = Box::new(parse_quote!(VInto::<#ty>::v_into));
                    return;
                }
                "String::from_utf8" => "v_from_utf8",
                "u8::from_str_radix" => "v_u8_from_str_radix",
                "mem::take" | "take" => "v_take",
                "mem::replace" => "v_replace_mem",
                "from_utf8" | "str::from_utf8" => "v_str_from_utf8",
                "Map::keys" => "v_map_keys",
                _ => return,
            };
            self.note(&format!("call:{f}"));
            c.func = Box::new(syn::parse_str(t).unwrap());
        }
    }
}

fn split_commas(ts: TokenStream) -> Vec<TokenStream> {
    let mut out = vec![];
    let mut cur: Vec<TokenTree> = vec![];
    for t in ts {
        if let TokenTree::Punct(p) = &t {
            if p.as_char() == ',' {
                if !cur.is_empty() {
                    out.push(cur.drain(..).collect());
                }
                continue;
            }
        }
        cur.push(t);
    }
    if !cur.is_empty() {
        out.push(cur.drain(..).collect());
    }
    out
}

/// `[rest @ .., x]` / `[x, rest @ ..]`
fn slice_pat(p: &Pat) -> Option<(bool, Pat, Pat)> {
    if let Pat::Slice(s) = p {
        if s.elems.len() == 2 {
            let is_rest = |p: &Pat| matches!(p, Pat::Ident(i) if matches!(i.subpat.as_ref().map(|s| &*s.1), Some(Pat::Rest(_))));
            let strip = |p: &Pat| -> Pat {
                if let Pat::Ident(i) = p {
                    let mut i = i.clone();
                    i.subpat = None;
                    Pat::Ident(i)
                } else {
                    p.clone()
                }
            };
            if is_rest(&s.elems[0]) {
                return Some((false, strip(&s.elems[0]), s.elems[1].clone())); // split_last: (rest, last)
            }
            if is_rest(&s.elems[1]) {
                return Some((true, s.elems[0].clone(), strip(&s.elems[1]))); // split_first: (first, rest)
            }
        }
    }
    None
}

impl VisitMut for Lower {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            if let Some(e) = self.macro_expr(&m.mac.clone()) {
                *s = Stmt::Expr(e, m.semi_token);
            }
            return;
        }
        visit_mut::visit_stmt_mut(self, s);
        // flatten `{ for .. }` statement blocks produced by the loop rules
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain(|s| !matches!(s, Stmt::Item(_)));
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            self.visit_stmt_mut(&mut s);
            // flatten `{ for .. }` statement blocks produced by the loop rules
            match s {
                Stmt::Expr(Expr::Block(bl), semi) if bl.label.is_none() && bl.block.stmts.iter().any(|s| matches!(s, Stmt::Macro(m) if m.mac.path.is_ident("__VAL"))) && semi.is_none() && !ends_with_value(&bl.block) => {
                    out.extend(bl.block.stmts)
                }
                s => out.push(s),
            }
        }
        b.stmts = out;
    }
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        if let Pat::Path(pp) = p {
            if let Some(Expr::Lit(l)) = pp.path.segments.last().and_then(|s| self.consts.get(&s.ident.to_string())).cloned() {
                self.note("const");
                *p = Pat::Lit(l);
                return;
            }
        }
        if let Pat::Ident(pi) = p {
            if pi.subpat.is_none() && pi.by_ref.is_none() {
                if let Some(Expr::Lit(l)) = self.consts.get(&pi.ident.to_string()).cloned() {
                    self.note("const");
                    *p = Pat::Lit(l);
                    return;
                }
            }
        }
        visit_mut::visit_pat_mut(self, p);
    }
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        a.attrs.clear();
        visit_mut::visit_arm_mut(self, a);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            // CHAIN.try_fold(init, |acc, x| { ..; Ok(e) })? -> a loop; `?` in the closure leaves the function, as the outer `?` would
            Expr::Try(t) if matches!(&*t.expr, Expr::MethodCall(m) if m.method == "try_fold" && m.args.len() == 2) => {
                let Expr::MethodCall(m) = (*t.expr).clone() else { return };
                let Expr::Closure(c) = &m.args[1] else {
                    self.err("try_fold");
                    return;
                };
                if c.inputs.len() != 2 {
                    self.err("try_fold");
                    return;
                }
                self.note("try_fold");
                let pats: Vec<Pat> = c.inputs.iter().map(|p| match p { Pat::Type(t) => (*t.pat).clone(), p => p.clone() }).collect();
                let acc = id(&format!("__acc{}", self.nloops));
                // `return Ok(e)` guards and the final `Ok(e)` set the accumulator
                fn set(acc: &Ident, stmts: Vec<Stmt>) -> Option<Vec<Stmt>> {
                    let mut out = vec![];
                    let n = stmts.len();
                    for (i, st) in stmts.iter().enumerate() {
                        let last = i + 1 == n;
                        match st {
                            Stmt::Expr(Expr::Call(k), None) if last && clean(k.func.to_token_stream().to_string()) == "Ok" => {
                                let x = &k.args[0];
                                out.push(parse_quote!(#acc = #x;));
                                return Some(out);
                            }
                            Stmt::Expr(Expr::Return(r), _) if last => match r.expr.as_deref() {
                                Some(Expr::Call(k)) if clean(k.func.to_token_stream().to_string()) == "Ok" => {
                                    let x = &k.args[0];
                                    out.push(parse_quote!(#acc = #x;));
                                    return Some(out);
                                }
                                _ => return None,
                            },
                            Stmt::Expr(Expr::If(f), None) if last && f.else_branch.is_some() => {
                                let t = set(acc, f.then_branch.stmts.clone())?;
                                let e = match &*f.else_branch.as_ref().unwrap().1 {
                                    Expr::Block(b) => set(acc, b.block.stmts.clone())?,
                                    e => set(acc, vec![Stmt::Expr(e.clone(), None)])?,
                                };
                                let c = &f.cond;
                                out.push(parse_quote!(if #c { #(#t)* } else { #(#e)* }));
                                return Some(out);
                            }
                            Stmt::Expr(Expr::Match(m), None) if last => {
                                let mut m = m.clone();
                                for a in &mut m.arms {
                                    let ss = match &*a.body {
                                        Expr::Block(b) => b.block.stmts.clone(),
                                        e => vec![Stmt::Expr(e.clone(), None)],
                                    };
                                    let t = set(acc, ss)?;
                                    *a.body = parse_quote!({ #(#t)* });
                                }
                                out.push(Stmt::Expr(Expr::Match(m), None));
                                return Some(out);
                            }
                            Stmt::Expr(Expr::If(f), _) if f.else_branch.is_none() && matches!(f.then_branch.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _))) => {
                                let t = set(acc, f.then_branch.stmts.clone())?;
                                let e = set(acc, stmts[i + 1..].to_vec())?;
                                let c = &f.cond;
                                out.push(parse_quote!(if #c { #(#t)* } else { #(#e)* }));
                                return Some(out);
                            }
                            _ => {
                                struct R(bool);
                                impl<'a> syn::visit::Visit<'a> for R {
                                    fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) {
                                        self.0 = true;
                                    }
                                }
                                let mut r = R(false);
                                syn::visit::Visit::visit_stmt(&mut r, st);
                                if r.0 {
                                    return None;
                                }
                                out.push(st.clone());
                            }
                        }
                    }
                    None
                }
                let mut body: Block = match &*c.body {
                    Expr::Block(b) => b.block.clone(),
                    e => parse_quote!({ #e }),
                };
                let Some(ss) = set(&acc, std::mem::take(&mut body.stmts)) else {
                    self.err("try_fold body");
                    return;
                };
                body.stmts = ss;
                let mut init = m.args[0].clone();
                self.visit_expr_mut(&mut init);
                let (p0, p1) = (pats[0].clone(), pats[1].clone());
                let recv = (*m.receiver).clone();
                let ac = acc.clone();
                let st = self.chain(&recv, &mut |s, x| {
                    let mut b = body.clone();
                    s.visit_block_mut(&mut b);
                    let ss = &b.stmts;
                    vec![parse_quote!(let #p0 = #ac;), parse_quote!(let #p1 = #x;), parse_quote!({ #(#ss)* })]
                });
                *e = parse_quote!({ let mut #acc = #init; #(#st)* #acc });
                return;
            }
            Expr::Path(p) if p.qself.is_none() => {
                let last = p.path.segments.last().unwrap().ident.to_string();
                if let Some(l) = self.consts.get(&last).cloned() {
                    self.note("const");
                    *e = l.clone();
                    return;
                }
                if p.path.segments.len() == 1 && self.lists.contains(&last) {
                    self.note("constlist");
                    let f = id(&format!("exec_{last}"));
                    *e = parse_quote!(#f());
                    return;
                }
            }
            Expr::Reference(r) if matches!(&*r.expr, Expr::Index(i) if matches!(&*i.index, Expr::Range(_))) => {
                // &x[a..b]
                let Expr::Index(i) = (*r.expr).clone() else { return };
                let Expr::Range(rg) = *i.index else { return };
                self.note("slice");
                let mut x = *i.expr;
                self.visit_expr_mut(&mut x);
                let mut a: Expr = rg.start.map(|e| *e).unwrap_or(parse_quote!(0));
                self.visit_expr_mut(&mut a);
                *e = match rg.end {
                    None => parse_quote!(#x.v_slice_from(#a)),
                    Some(mut b) => {
                        self.visit_expr_mut(&mut b);
                        if matches!(rg.limits, RangeLimits::Closed(_)) { parse_quote!(#x.v_slice(#a, #b + 1)) } else { parse_quote!(#x.v_slice(#a, #b)) }
                    }
                };
                return;
            }
            Expr::Macro(m) => {
                if let Some(n) = self.macro_expr(&m.mac.clone()) {
                    *e = n;
                }
                return;
            }
            Expr::ForLoop(f) => {
                let f = f.clone();
                *e = self.for_loop(&f);
                return;
            }
            Expr::While(w) => {
                let n = self.nloops;
                self.nloops += 1;
                let nn = LitInt::new(&n.to_string(), Span::call_site());
                if let Expr::Let(l) = &*w.cond {
                    if let Some((first, a, b)) = slice_pat(&l.pat) {
                        self.note("slicepat");
                        let mut src = (*l.expr).clone();
                        self.visit_expr_mut(&mut src);
                        let mut body = w.body.clone();
                        self.visit_block_mut(&mut body);
                        let st = &body.stmts;
                        let f = id(if first { "v_split_first" } else { "v_split_last" });
                        *e = parse_quote!(while #src.len() > 0 { __VINV!(#nn); let (#a, #b) = #f(#src); #(#st)* __VLE!(#nn); });
                        return;
                    }
                    // while let P = E { B } -> loop { match E { P => B, _ => break } }
                    self.note("whilelet");
                    let p = &l.pat;
                    let mut src = (*l.expr).clone();
                    self.visit_expr_mut(&mut src);
                    let mut body = w.body.clone();
                    self.visit_block_mut(&mut body);
                    *e = parse_quote!(loop { __VINV!(#nn); if let #p = #src #body else { break; } __VLE!(#nn); });
                    return;
                }
                let mut c = (*w.cond).clone();
                self.visit_expr_mut(&mut c);
                let mut body = w.body.clone();
                self.visit_block_mut(&mut body);
                let st = &body.stmts;
                *e = parse_quote!(while #c { __VINV!(#nn); #(#st)* __VLE!(#nn); });
                return;
            }
            Expr::Loop(l) => {
                let n = self.nloops;
                self.nloops += 1;
                let nn = LitInt::new(&n.to_string(), Span::call_site());
                let mut body = l.body.clone();
                self.visit_block_mut(&mut body);
                let st = &body.stmts;
                *e = parse_quote!(loop { __VINV!(#nn); #(#st)* __VLE!(#nn); });
                return;
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let a0 = m.args.first().cloned();
                let chain = Self::is_chain(&m.receiver);
                match name.as_str() {
                    "any" | "all" if m.args.len() == 1 => {
                        self.note(&name);
                        let r = id(&format!("__r{}", self.nloops));
                        let isany = name == "any";
                        let recv = (*m.receiver).clone();
                        let st = self.chain(&recv, &mut |s, x| {
                            let c = s.apply(a0.as_ref().unwrap(), &x);
                            vec![if isany { parse_quote!(#r = #r || #c;) } else { parse_quote!(#r = #r && #c;) }]
                        });
                        let init = id(if isany { "false" } else { "true" });
                        let init: Expr = parse_quote!(#init);
                        *e = parse_quote!({ let mut #r = #init; #(#st)* #r });
                        return;
                    }
                    "collect" if chain => {
                        self.note("collect");
                        let r = id(&format!("__r{}", self.nloops));
                        let recv = (*m.receiver).clone();
                        if m.turbofish.as_ref().is_some_and(|t| clean(t.to_token_stream().to_string()).contains("Option<Vec<")) {
                            // all of them or nothing (going on after the first None changes nothing: the items have no side effects)
                            self.note("collect:option");
                            let ok = id(&format!("__ok{}", self.nloops));
                            let v = self.fresh("x");
                            let st = self.chain(&recv, &mut |_s, x| vec![parse_quote!(match #x { Some(#v) => { #r.push(#v); } None => { #ok = false; } })]);
                            *e = parse_quote!({ let mut #r = Vec::new(); let mut #ok = true; #(#st)* if #ok { Some(#r) } else { None } });
                            return;
                        }
                        let st = self.chain(&recv, &mut |_s, x| vec![parse_quote!(#r.v_extend1(#x);)]);
                        *e = parse_quote!({ let mut #r = v_collect_new(); #(#st)* #r });
                        return;
                    }
                    "next" if chain && m.args.is_empty() => {
                        // only for a plain source
                        if let Expr::MethodCall(r) = &*m.receiver {
                            if r.method == "into_iter" {
                                self.note("next");
                                let mut rr = (*r.receiver).clone();
                                self.visit_expr_mut(&mut rr);
                                *e = parse_quote!(#rr.v_into_first());
                                return;
                            }
                            if r.method == "split" {
                                self.err("split().next()");
                                return;
                            }
                        }
                        self.err("iterator next");
                        return;
                    }
                    "extend" if m.args.len() == 1 => {
                        self.note("extend");
                        let mut recv = (*m.receiver).clone();
                        self.visit_expr_mut(&mut recv);
                        let st = self.chain(a0.as_ref().unwrap(), &mut |_s, x| vec![parse_quote!(#recv.v_extend1(#x);)]);
                        *e = parse_quote!({ #(#st)* });
                        return;
                    }
                    "retain" => {
                        self.note("retain");
                        let mut recv = (*m.receiver).clone();
                        self.visit_expr_mut(&mut recv);
                        let mk = id(&format!("__mask{}", self.nloops));
                        let st = self.raw_loop(parse_quote!(#recv.vs_iter()), &mut |s, x| {
                            let c = s.apply(a0.as_ref().unwrap(), &x);
                            vec![parse_quote!(#mk.push(#c);)]
                        });
                        *e = parse_quote!({ let mut #mk: Vec<bool> = Vec::new(); #(#st)* #recv.v_retain_mask(&#mk); });
                        return;
                    }
                    // a lazily evaluated chain as a value -> the vector of its items
                    "map" | "filter" | "filter_map" | "flat_map" if Self::is_chain(&m.receiver) => {
                        self.note(&format!("eager:{name}"));
                        let f = self.fresh("v");
                        let whole = e.clone();
                        let st = self.chain(&whole, &mut |_, x| vec![parse_quote!(#f.push(#x);)]);
                        *e = parse_quote!({ let mut #f = Vec::new(); #(#st)* #f });
                        return;
                    }
                    "and_then" | "map" | "filter" | "is_some_and" | "is_ok_and" | "map_or" | "unwrap_or_else" | "or_else" | "or_insert_with" | "then" | "inspect"
                        if matches!(m.args.last(), Some(Expr::Closure(_))) || (["is_some_and", "is_ok_and"].contains(&name.as_str()))
                            || (matches!(m.args.last(), Some(Expr::Path(p)) if p.path.segments.len() >= 2 || p.path.get_ident().is_some_and(|i| i == "percent_decode")) && ["and_then", "map", "filter", "map_or"].contains(&name.as_str())) =>
                    {
                        self.note(&format!("optclosure:{name}"));
                        let mut o = (*m.receiver).clone();
                        self.visit_expr_mut(&mut o);
                        let f = m.args.last().unwrap().clone();
                        let x = self.fresh("o");
                        let xe: Expr = parse_quote!(#x);
                        let thunk = |s: &mut Self| -> Expr {
                            if let Expr::Closure(c) = &f {
                                let mut b = (*c.body).clone();
                                s.visit_expr_mut(&mut b);
                                s.settle(b)
                            } else {
                                parse_quote!(#f())
                            }
                        };
                        *e = match name.as_str() {
                            "and_then" => {
                                if let Some((p, mut b)) = Self::closure1(&f) {
                                    self.visit_expr_mut(&mut b);
                                    b = self.settle(b);
                                    parse_quote!(match #o { Some(#p) => #b, None => None })
                                } else {
                                    let c = self.apply(&f, &xe);
                                    parse_quote!(match #o { Some(#x) => #c, None => None })
                                }
                            }
                            "map" => {
                                if let Some((p, mut b)) = Self::closure1(&f) {
                                    self.visit_expr_mut(&mut b);
                                    b = self.settle(b);
                                    parse_quote!(match #o { Some(#p) => Some(#b), None => None })
                                } else {
                                    let c = self.apply(&f, &xe);
                                    parse_quote!(match #o { Some(#x) => Some(#c), None => None })
                                }
                            }
                            "filter" => {
                                let c = self.apply(&f, &parse_quote!(&#x));
                                parse_quote!(match #o { Some(#x) => { if #c { Some(#x) } else { None } } None => None })
                            }
                            "is_some_and" => {
                                let c = self.apply(&f, &xe);
                                parse_quote!(match #o { Some(#x) => #c, None => false })
                            }
                            "is_ok_and" => {
                                let c = self.apply(&f, &xe);
                                parse_quote!(match #o { Ok(#x) => #c, Err(_) => false })
                            }
                            "map_or" => {
                                let mut d = a0.clone().unwrap();
                                self.visit_expr_mut(&mut d);
                                let c = self.apply(&f, &xe);
                                parse_quote!(match #o { Some(#x) => #c, None => #d })
                            }
                            "unwrap_or_else" => {
                                let t = thunk(self);
                                parse_quote!(match #o { Some(#x) => #x, None => #t })
                            }
                            "or_else" => {
                                let t = thunk(self);
                                parse_quote!(match #o { Some(#x) => Some(#x), None => #t })
                            }
                            "or_insert_with" => {
                                let t = thunk(self);
                                parse_quote!(match #o { Entry::Occupied(#x) => #x.into_mut(), Entry::Vacant(#x) => #x.insert(#t) })
                            }
                            "then" => {
                                let t = thunk(self);
                                parse_quote!(if #o { Some(#t) } else { None })
                            }
                            _ => {
                                self.err(format!("closure method {name}"));
                                return;
                            }
                        };
                        return;
                    }
                    "then_some" => {
                        self.note("then_some");
                        visit_mut::visit_expr_method_call_mut(self, m);
                        let o = &m.receiver;
                        let x = m.args.first().unwrap();
                        *e = parse_quote!(if #o { Some(#x) } else { None });
                        return;
                    }
                    "ok" if m.args.is_empty() => {
                        visit_mut::visit_expr_method_call_mut(self, m);
                        let o = &m.receiver;
                        let x = id("__ok");
                        self.note("ok");
                        *e = parse_quote!(match #o { Ok(#x) => Some(#x), Err(_) => None });
                        return;
                    }
                    "get" | "get_mut" if m.args.len() == 1 && matches!(m.args.first(), Some(Expr::Range(_))) => {
                        // text.get(a..b)
                        let Some(Expr::Range(rg)) = m.args.first().cloned() else { return };
                        if name == "get" && rg.end.is_some() && matches!(rg.limits, RangeLimits::HalfOpen(_)) {
                            self.note("slice");
                            let mut x = (*m.receiver).clone();
                            self.visit_expr_mut(&mut x);
                            let mut a: Expr = rg.start.map(|e| *e).unwrap_or(parse_quote!(0));
                            self.visit_expr_mut(&mut a);
                            let mut b = *rg.end.unwrap();
                            self.visit_expr_mut(&mut b);
                            *e = parse_quote!(#x.v_get_range(#a, #b));
                            return;
                        }
                    }
                    "transform_dyn" => {}
                    _ => {}
                }
                visit_mut::visit_expr_method_call_mut(self, m);
                if let Some((_, to)) = self.calls.iter().find(|(a, _)| a.strip_prefix('.') == Some(name.as_str())).cloned() {
                    m.method = id(&to);
                    return;
                }
                if let Some((_, to)) = METHOD_MAP.iter().find(|(a, _)| *a == name) {
                    self.note(&format!("method:{name}"));
                    m.method = id(to);
                }
                return;
            }
            Expr::Call(_) => {
                visit_mut::visit_expr_mut(self, e);
                self.rename_call(e);
                return;
            }
            Expr::Closure(_) => {
                // a closure not consumed by a rule: leave (Verus accepts closures, without contract)
                visit_mut::visit_expr_mut(self, e);
                return;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

fn ends_with_value(b: &Block) -> bool {
    matches!(b.stmts.last(), Some(Stmt::Expr(e, None)) if !matches!(e, Expr::ForLoop(_) | Expr::If(_) | Expr::While(_) | Expr::Loop(_)))
}

/// the boxed constructors of a `FIELD: vec![Box::new(A), ..]` (or `Vec::new()`) in a struct literal
pub fn box_list(b: &Block, field: &str) -> std::result::Result<Vec<String>, String> {
    struct F<'a> {
        field: &'a str,
        out: Option<std::result::Result<Vec<String>, String>>,
    }
    impl<'ast> syn::visit::Visit<'ast> for F<'_> {
        fn visit_field_value(&mut self, f: &'ast FieldValue) {
            if matches!(&f.member, Member::Named(i) if i == self.field) {
                self.out = Some(parse(&f.expr));
            }
            syn::visit::visit_field_value(self, f);
        }
    }
    fn parse(e: &Expr) -> std::result::Result<Vec<String>, String> {
        match e {
            Expr::Macro(m) if m.mac.path.is_ident("vec") => {
                let p = punctuated::Punctuated::<Expr, Token![,]>::parse_terminated;
                let els = parse::Parser::parse2(p, m.mac.tokens.clone()).map_err(|e| e.to_string())?;
                els.iter()
                    .map(|e| match e {
                        Expr::Call(c) if clean(c.func.to_token_stream().to_string()) == "Box::new" => {
                            let mut a = c.args[0].clone();
                            Flat.visit_expr_mut(&mut a);
                            Ok(a.to_token_stream().to_string())
                        }
                        e => Err(format!("not Box::new: {}", e.to_token_stream())),
                    })
                    .collect()
            }
            Expr::Call(c) if clean(c.func.to_token_stream().to_string()) == "Vec::new" => Ok(vec![]),
            e => Err(format!("unsupported list {}", e.to_token_stream())),
        }
    }
    let mut f = F { field, out: None };
    syn::visit::Visit::visit_block(&mut f, b);
    f.out.unwrap_or_else(|| Err("field not found".into()))
}
