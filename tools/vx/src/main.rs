//! vx: mechanical extraction of the functions under contract from /repo's current source.
//!
//! usage: vx REPO OUT.rs MAP.json FILE.vc...
//!
//! Reads the contract files (see contracts/README) and, for each `@fn`, finds the function in the
//! repository's source *now*, applies the fixed list of rewriting rules in `lower.rs` to its body
//! (nothing else), attaches the contract, loop invariants and ghost code, and writes one Verus file.
//! Exit 3 with a reason on stderr when an anchor is lost (item missing, loop structure changed).
mod lower;
mod mac;
use quote::ToTokens;
use std::collections::BTreeMap;
use std::fmt::Write as _;

#[derive(Default, Debug, Clone)]
struct FnSpec {
    file: String,
    path: String,
    name: Option<String>,
    subst: Vec<(String, String)>,
    calls: Vec<(String, String)>,
    ret: Option<String>,
    attr: String,
    spec: String,
    start: String,
    end: String,
    loops: BTreeMap<usize, [String; 3]>, // inv, loopstart, loopend
    afterloop: BTreeMap<usize, String>,
    kind: String, // "", "free", "trait", "method"
    implextra: String,
    nloops: Option<usize>,
    stub: bool,
    sig: Option<String>,
    selfty: Option<String>,
    deps: Vec<String>,
}

fn lost(msg: impl AsRef<str>) -> ! {
    eprintln!("LOST: {}", msg.as_ref());
    std::process::exit(3)
}

struct Files {
    root: String,
    cache: BTreeMap<String, syn::File>,
    /// names that have a contract (never unfolded)
    known: std::collections::BTreeSet<String>,
    /// constant lists emitted by @constspec
    lists: std::collections::BTreeSet<String>,
    consts: Option<BTreeMap<String, syn::Expr>>,
}
impl Files {
    /// the string constants of consts.rs by name
    fn consts(&mut self) -> BTreeMap<String, syn::Expr> {
        if self.consts.is_none() {
            let mut m = BTreeMap::new();
            fn go(items: &[syn::Item], m: &mut BTreeMap<String, syn::Expr>) {
                for it in items {
                    match it {
                        syn::Item::Const(c) => {
                            if let syn::Expr::Lit(_) = &*c.expr { m.insert(c.ident.to_string(), (*c.expr).clone()); }
                        }
                        syn::Item::Mod(x) => if let Some((_, i)) = &x.content { go(i, m) },
                        _ => {}
                    }
                }
            }
            if std::path::Path::new(&format!("{}/schemars/src/consts.rs", self.root)).exists() {
                let f = self.get("consts.rs").clone();
                go(&f.items, &mut m);
            }
            self.consts = Some(m);
        }
        self.consts.clone().unwrap()
    }
    fn get(&mut self, f: &str) -> &syn::File {
        if !self.cache.contains_key(f) {
            let base = if f.starts_with("schemars_derive/") { self.root.clone() } else { format!("{}/schemars/src", self.root) };
            let p = if f == "derive.rs" { std::env::var("VX_DERIVE").unwrap_or_else(|_| lost("no generated code")) } else { format!("{}/{}", base, f) };
            let s = std::fs::read_to_string(&p).unwrap_or_else(|e| lost(format!("cannot read {p}: {e}")));
            let mut parsed = syn::parse_file(&s).unwrap_or_else(|e| lost(format!("cannot parse {p}: {e}")));
            let mut defs = BTreeMap::new();
            if f.starts_with("json_schema_impls/") {
                if let Some(m) = std::fs::read_to_string(format!("{base}/json_schema_impls/mod.rs")).ok().and_then(|s| syn::parse_file(&s).ok()) {
                    mac::collect(&m.items, &mut defs);
                }
            }
            mac::collect(&parsed.items, &mut defs);
            mac::expand(&mut parsed.items, &defs, 0);
            self.cache.insert(f.to_string(), parsed);
        }
        &self.cache[f]
    }
}

fn norm(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

fn impl_header(i: &syn::ItemImpl) -> String {
    // without generics, lifetimes and path prefixes
    let mut i = i.clone();
    struct Strip;
    impl syn::visit_mut::VisitMut for Strip {
        fn visit_path_mut(&mut self, p: &mut syn::Path) {
            if p.segments.len() > 1 {
                let last = p.segments.last().unwrap().clone();
                p.segments.clear();
                p.segments.push(last);
            }
            p.leading_colon = None;
            syn::visit_mut::visit_path_mut(self, p);
        }
        fn visit_type_reference_mut(&mut self, t: &mut syn::TypeReference) {
            t.lifetime = None;
            syn::visit_mut::visit_type_reference_mut(self, t);
        }
        fn visit_path_segment_mut(&mut self, s: &mut syn::PathSegment) {
            if let syn::PathArguments::AngleBracketed(a) = &mut s.arguments {
                let keep: Vec<_> = a.args.iter().filter(|x| !matches!(x, syn::GenericArgument::Lifetime(_))).cloned().collect();
                if keep.is_empty() {
                    s.arguments = syn::PathArguments::None;
                } else {
                    a.args = keep.into_iter().collect();
                }
            }
            syn::visit_mut::visit_path_segment_mut(self, s);
        }
    }
    syn::visit_mut::VisitMut::visit_item_impl_mut(&mut Strip, &mut i);
    let ty = i.self_ty.to_token_stream().to_string();
    match &i.trait_ {
        Some((_, p, _)) => format!("impl {} for {}", p.to_token_stream(), ty),
        None => format!("impl {}", ty),
    }
}

#[derive(Clone)]
struct Found {
    sig: syn::Signature,
    block: syn::Block,
    imp: Option<syn::ItemImpl>,
}

fn is_cfg_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && norm(&a.meta.to_token_stream().to_string()).contains("test"))
}

fn find_in_items(items: &[syn::Item], segs: &[&str], imp: Option<&syn::ItemImpl>) -> Option<Found> {
    for it in items {
        match it {
            syn::Item::Fn(f) if f.sig.ident == segs[0] && !is_cfg_test(&f.attrs) => {
                if segs.len() == 1 {
                    return Some(Found { sig: f.sig.clone(), block: (*f.block).clone(), imp: imp.cloned() });
                }
                if let Some(r) = find_in_block(&f.block, &segs[1..]) {
                    return Some(r);
                }
            }
            syn::Item::Mod(m) if segs[0] == format!("mod {}", m.ident) && !is_cfg_test(&m.attrs) => {
                if let Some((_, items)) = &m.content {
                    if let Some(r) = find_in_items(items, &segs[1..], None) {
                        return Some(r);
                    }
                }
            }
            syn::Item::Impl(i) if norm(&impl_header(i)) == norm(segs[0]) && segs.len() > 1 => {
                for ii in &i.items {
                    if let syn::ImplItem::Fn(f) = ii {
                        if f.sig.ident == segs[1] {
                            if segs.len() == 2 {
                                return Some(Found { sig: f.sig.clone(), block: f.block.clone(), imp: Some(i.clone()) });
                            }
                            if let Some(r) = find_in_block(&f.block, &segs[2..]) {
                                return Some(r);
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
    None
}
fn find_in_block(b: &syn::Block, segs: &[&str]) -> Option<Found> {
    let items: Vec<syn::Item> = b.stmts.iter().filter_map(|s| if let syn::Stmt::Item(i) = s { Some(i.clone()) } else { None }).collect();
    find_in_items(&items, segs, None)
}

fn find_item<'a>(items: &'a [syn::Item], segs: &[&str]) -> Option<&'a syn::Item> {
    for it in items {
        let (name, is_mod) = match it {
            syn::Item::Struct(s) => (s.ident.to_string(), false),
            syn::Item::Enum(s) => (s.ident.to_string(), false),
            syn::Item::Const(s) => (s.ident.to_string(), false),
            syn::Item::Static(s) => (s.ident.to_string(), false),
            syn::Item::Type(s) => (s.ident.to_string(), false),
            syn::Item::Trait(s) => (s.ident.to_string(), false),
            syn::Item::Mod(m) => (m.ident.to_string(), true),
            syn::Item::Macro(m) => (m.ident.as_ref().map(|i| i.to_string()).unwrap_or_default(), false),
            syn::Item::Fn(f) => (f.sig.ident.to_string(), true),
            syn::Item::Impl(i) => (norm(&impl_header(i)), true),
            _ => continue,
        };
        if norm(&name) != norm(segs[0]) {
            continue;
        }
        if segs.len() == 1 && !is_mod {
            return Some(it);
        }
        if segs.len() > 1 {
            match it {
                syn::Item::Mod(m) => {
                    if let Some((_, items)) = &m.content {
                        if let Some(r) = find_item(items, &segs[1..]) {
                            return Some(r);
                        }
                    }
                }
                syn::Item::Fn(f) => {
                    for s in &f.block.stmts {
                        if let syn::Stmt::Item(i) = s {
                            if let Some(r) = find_item(std::slice::from_ref(i), &segs[1..]) {
                                return Some(r);
                            }
                        }
                    }
                }
                syn::Item::Impl(im) => {
                    for ii in &im.items {
                        if let syn::ImplItem::Fn(f) = ii {
                            if f.sig.ident == segs[1] && segs.len() > 2 {
                                for s in &f.block.stmts {
                                    if let syn::Stmt::Item(i) = s {
                                        if let Some(r) = find_item(std::slice::from_ref(i), &segs[2..]) {
                                            return Some(r);
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
                _ => {}
            }
        }
    }
    None
}

fn rustfmt(src: &str) -> String {
    use std::io::Write;
    use std::process::{Command, Stdio};
    let child = Command::new("rustfmt")
        .args(["--edition", "2021", "--config", "max_width=110"])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn();
    if let Ok(mut c) = child {
        c.stdin.take().unwrap().write_all(src.as_bytes()).ok();
        if let Ok(o) = c.wait_with_output() {
            if o.status.success() {
                if let Ok(s) = String::from_utf8(o.stdout) {
                    return s;
                }
            }
        }
    }
    src.to_string()
}

fn strip_attrs_vis(item: &syn::Item) -> syn::Item {
    let mut it = item.clone();
    struct A;
    impl syn::visit_mut::VisitMut for A {
        fn visit_attributes_mut(&mut self, a: &mut Vec<syn::Attribute>) {
            a.clear();
        }
        fn visit_visibility_mut(&mut self, v: &mut syn::Visibility) {
            *v = syn::parse_quote!(pub);
        }
        fn visit_field_mut(&mut self, f: &mut syn::Field) {
            f.attrs.clear();
            f.vis = syn::parse_quote!(pub);
            self.visit_type_mut(&mut f.ty);
        }
        fn visit_path_mut(&mut self, p: &mut syn::Path) {
            lower::flatten_path(p);
            syn::visit_mut::visit_path_mut(self, p);
        }
        fn visit_fields_unnamed_mut(&mut self, f: &mut syn::FieldsUnnamed) {
            for f in f.unnamed.iter_mut() { self.visit_field_mut(f); }
        }
        fn visit_variant_mut(&mut self, v: &mut syn::Variant) {
            v.attrs.clear();
        }
    }
    syn::visit_mut::VisitMut::visit_item_mut(&mut A, &mut it);
    it
}

struct Emitted {
    name: String,
    file: String,
    path: String,
    start: usize,
    end: usize,
    stub: bool,
    lost: Option<String>,
    calls: Vec<String>,
    key: String,
    deps: Vec<String>,
}

/// the identifiers called in a token stream: `f(..)`, `.m(..)`, `T::f(..)`
fn called(ts: proc_macro2::TokenStream, out: &mut std::collections::BTreeSet<String>) {
    let v: Vec<_> = ts.into_iter().collect();
    for (i, t) in v.iter().enumerate() {
        match t {
            proc_macro2::TokenTree::Ident(id) => {
                // also a function passed by name
                let _ = v.get(i + 1);
                out.insert(id.to_string());
            }
            proc_macro2::TokenTree::Group(g) => called(g.stream(), out),
            _ => {}
        }
    }
}

/// the functions of a file (free ones by name, methods of the same type as `self.name` / `Self::name`)
fn collect_helpers(items: &[syn::Item], imp: Option<&syn::ItemImpl>) -> BTreeMap<String, (syn::Signature, syn::Block)> {
    let mut m = BTreeMap::new();
    let self_ty = imp.map(|i| norm(&i.self_ty.to_token_stream().to_string()));
    for it in items {
        match it {
            syn::Item::Fn(f) if !is_cfg_test(&f.attrs) => { m.insert(f.sig.ident.to_string(), (f.sig.clone(), (*f.block).clone())); }
            syn::Item::Impl(i) if i.trait_.is_none() && Some(norm(&i.self_ty.to_token_stream().to_string())) == self_ty => {
                for x in &i.items {
                    if let syn::ImplItem::Fn(f) = x { m.insert(format!("self.{}", f.sig.ident), (f.sig.clone(), f.block.clone())); }
                }
            }
            _ => {}
        }
    }
    m
}

fn emit_fn(files: &mut Files, fs: &FnSpec, out: &mut String, dropped: &mut Vec<String>, forced: &[String]) -> Emitted {
    // VX_MARK=1: every extracted function calls a proof function of its own, by which it is found in the verifier's call graph
    static MARK: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let mark = MARK.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    let marks = std::env::var("VX_MARK").is_ok();
    let mut fs = fs.clone();
    let mut why: Option<String> = None;
    let segs: Vec<&str> = fs.path.split(" / ").map(|s| s.trim()).collect();
    let file = files.get(&fs.file).clone();
    let Some(mut found) = find_in_items(&file.items, &segs, None) else {
        let name = fs.name.clone().unwrap_or(segs.last().unwrap().to_string());
        let l = out.matches('\n').count() + 1;
        return Emitted { key: fs.path.clone(), deps: vec![], name, file: fs.file.clone(), path: fs.path.clone(), start: l, end: l, stub: fs.stub, lost: Some("function not found in the source".into()), calls: vec![] };
    };
    let orig_name = found.sig.ident.to_string();
    let name = fs.name.clone().unwrap_or(orig_name.clone());
    let spec_stub = fs.stub;
    let key = match (&found.imp, fs.kind.as_str()) {
        (Some(im), k) if k != "free" => {
            let mut im = im.clone();
            lower::flatten_impl(&mut im);
            im.generics = Default::default();
            let h = impl_header(&syn::ItemImpl { trait_: None, ..im });
            format!("{}::{}", norm(h.trim_start_matches("impl ")).replace("<'_>", ""), name)
        }
        _ => name.clone(),
    };
    if forced.contains(&key) {
        why = Some("stubbed".into());
        fs.stub = true;
    }

    if fs.kind == "free" {
        if let Some(im) = &found.imp {
            // a method emitted as a free function: `Self` is the impl's type
            struct R(syn::Type);
            impl syn::visit_mut::VisitMut for R {
                fn visit_type_mut(&mut self, t: &mut syn::Type) {
                    if matches!(t, syn::Type::Path(p) if p.qself.is_none() && p.path.is_ident("Self")) {
                        *t = self.0.clone();
                        return;
                    }
                    syn::visit_mut::visit_type_mut(self, t);
                }
                fn visit_path_mut(&mut self, p: &mut syn::Path) {
                    if p.segments[0].ident == "Self" {
                        if let syn::Type::Path(tp) = &self.0 {
                            let rest: Vec<_> = p.segments.iter().skip(1).cloned().collect();
                            p.segments = tp.path.segments.iter().cloned().chain(rest).collect();
                        }
                    }
                    syn::visit_mut::visit_path_mut(self, p);
                }
            }
            let mut r = R((*im.self_ty).clone());
            syn::visit_mut::VisitMut::visit_signature_mut(&mut r, &mut found.sig);
            syn::visit_mut::VisitMut::visit_block_mut(&mut r, &mut found.block);
        }
    }
    // type-parameter substitution (monomorphisation)
    for (from, to) in &fs.subst {
        let to: syn::Type = syn::parse_str(to).expect("subst type");
        lower::subst_type(&mut found.sig, &mut found.block, from, &to);
    }
    // helpers without a contract of their own are unfolded at the call
    let helpers = collect_helpers(&file.items, found.imp.as_ref());
    let inlined = lower::inline_helpers(&mut found.block, &helpers, &files.known);
    dropped.extend(inlined.iter().map(|l| format!("{}: inline {}", name, l)));
    let mut lw = lower::Lower::new(fs.calls.clone());
    lw.consts = files.consts();
    lw.lists = files.lists.clone();
    lw.lower_sig(&mut found.sig);
    lw.lower_block(&mut found.block);
    dropped.extend(lw.log.iter().map(|l| format!("{}: {}", name, l)));
    if let Some(e) = lw.error {
        if !fs.stub { why = Some(format!("{} :: {}: {}", fs.file, fs.path, e)); }
        fs.stub = true;
    }
    let nl = lw.nloops;
    if let Some(n) = fs.nloops {
        if n != nl && !fs.stub {
            why = Some(format!("{} :: {}: {} loops where {} are annotated", fs.file, fs.path, nl, n));
            fs.stub = true;
        }
    }
    let mut calls = std::collections::BTreeSet::new();
    called(found.block.to_token_stream(), &mut calls);
    let nl = if fs.stub { 0 } else { nl };

    // signature text
    found.sig.ident = syn::Ident::new(&name, proc_macro2::Span::call_site());
    found.sig.constness = None;
    let mut sig = found.sig.clone();
    let wherec = sig.generics.where_clause.take();
    let output = std::mem::replace(&mut sig.output, syn::ReturnType::Default);
    let mut sigtext = sig.to_token_stream().to_string();
    if let syn::ReturnType::Type(_, ty) = &output {
        let r = fs.ret.clone().unwrap_or_else(|| "ret".into());
        write!(sigtext, " -> ({}: {})", r, ty.to_token_stream()).unwrap();
    }
    if let Some(w) = wherec {
        write!(sigtext, " {}", w.to_token_stream()).unwrap();
    }
    if let Some(s) = &fs.sig {
        sigtext = s.clone();
    }

    // body text
    let mut block = found.block.clone();
    // drop nested items (lifted separately by the contract files; nested fns without a contract are a lost anchor
    // because the call to them will not resolve)
    block.stmts.retain(|s| !matches!(s, syn::Stmt::Item(_)));
    let body_src = format!("fn __b() {}", block.to_token_stream());
    let body_fmt = rustfmt(&body_src);
    let o = body_fmt.find('{').unwrap();
    let c = body_fmt.rfind('}').unwrap();
    let mut body = body_fmt[o + 1..c].to_string();
    // loop annotations
    for n in 0..nl {
        let [inv, ls, le] = fs.loops.get(&n).cloned().unwrap_or_default();
        body = body.replace(&format!("__vit_{n}("), &format!("it{n}: ("));
        body = body.replace(&format!("__VQ!({n});"), &format!("let ghost __q{n} = __s{n}@;"));
        // header: `{ __VINV!(n);`
        let m = format!("__VINV!({n});");
        let Some(p) = body.find(&m) else { lost(format!("internal: loop marker {n} in {name}")) };
        let before = body[..p].trim_end().to_string();
        assert!(before.ends_with('{'));
        let before = before[..before.len() - 1].trim_end().to_string();
        let after = body[p + m.len()..].to_string();
        let facts = if fs.attr.contains("loop_isolation(true)") { "proof { obeys_facts(); lemma_kwid(); }" } else { "" };
        body = format!("{before}\n{inv}\n{{\n{facts}\n{ls}\n{after}");
        let m = format!("__VLE!({n});");
        if let Some(p) = body.find(&m) {
            body = format!("{}{}{}", &body[..p], le, &body[p + m.len()..]);
        }
        let m = format!("__VAL!({n});");
        if let Some(p) = body.find(&m) {
            let al = fs.afterloop.get(&n).cloned().unwrap_or_default();
            body = format!("{}{}{}", &body[..p], al, &body[p + m.len()..]);
        }
    }
    let kind = if fs.kind.is_empty() {
        if found.imp.is_some() { "method" } else { "free" }
    } else {
        fs.kind.as_str()
    };
    let mut text = String::new();
    let vis = if kind == "trait" { "" } else { "pub " };
    let start_line = out.matches('\n').count() + 1;
    match kind {
        "method" | "trait" => {
            let im = found.imp.as_ref().unwrap_or_else(|| lost(format!("{}: not in an impl", fs.path)));
            let mut im = im.clone();
            im.attrs.clear();
            lower::flatten_impl(&mut im);
            let g = im.generics.clone();
            let (ig, _, wc) = g.split_for_impl();
            let st = fs.selfty.clone().unwrap_or(im.self_ty.to_token_stream().to_string());
            let header = if kind == "trait" {
                let (_, p, _) = im.trait_.as_ref().unwrap();
                format!("impl {} {} for {} {}", ig.to_token_stream(), p.to_token_stream(), st, wc.map(|w| w.to_token_stream().to_string()).unwrap_or_default())
            } else {
                format!("impl {} {} {}", ig.to_token_stream(), st, wc.map(|w| w.to_token_stream().to_string()).unwrap_or_default())
            };
            writeln!(text, "{header} {{").unwrap();
            if !fs.implextra.is_empty() {
                writeln!(text, "{}", fs.implextra).unwrap();
            }
        }
        _ => {}
    }
    if !fs.attr.is_empty() {
        writeln!(text, "{}", fs.attr.trim_end()).unwrap();
    }
    if !fs.stub && nl > 0 && !fs.attr.contains("loop_isolation") {
        writeln!(text, "#[verifier::loop_isolation(false)]").unwrap();
    }
    if fs.stub {
        writeln!(text, "#[verifier::external_body]").unwrap();
        body = "unimplemented!()".into();
    }
    writeln!(text, "{vis}{sigtext}").unwrap();
    writeln!(text, "{}", fs.spec.trim_end()).unwrap();
    writeln!(text, "{{").unwrap();
    if !fs.stub {
        writeln!(text, "proof {{ obeys_facts(); lemma_kwid(); {}}}", if marks { format!("__mark_{mark}(); ") } else { String::new() }).unwrap();
    }
    if !fs.stub && !fs.start.trim().is_empty() {
        writeln!(text, "{}", fs.start.trim_end()).unwrap();
    }
    if fs.end.trim().is_empty() || fs.stub {
        writeln!(text, "{}", body.trim_end()).unwrap();
    } else if matches!(output, syn::ReturnType::Default) {
        let mut b = body.trim_end().to_string();
        if !b.ends_with(';') && !b.is_empty() { b.push(';'); }
        writeln!(text, "{}\n{}", b, fs.end.trim_end()).unwrap();
    } else {
        writeln!(text, "let __result = {{ {} }};\n{}\n__result", body.trim_end(), fs.end.trim_end()).unwrap();
    }
    writeln!(text, "}}").unwrap();
    if kind == "method" || kind == "trait" {
        writeln!(text, "}}").unwrap();
    }
    out.push_str(&text);
    let end = out.matches('\n').count();
    if marks {
        writeln!(out, "pub proof fn __mark_{mark}() {{}}").unwrap();
    }
    Emitted { name, file: fs.file.clone(), path: fs.path.clone(), start: start_line, end, stub: spec_stub, lost: why, calls: calls.into_iter().collect(), key, deps: fs.deps.clone() }
}

/// textual repetition: `@for $A|$B <- a1|b1 ;; a2|b2` .. `@endfor`
fn expand_for(text: &str) -> String {
    let mut out = String::new();
    let mut body: Option<(Vec<String>, Vec<Vec<String>>, String)> = None;
    for line in text.lines() {
        let t = line.trim_start();
        if let Some(rest) = t.strip_prefix("@for ") {
            let (vars, vals) = rest.split_once("<-").expect("@for vars <- values");
            let vars = vars.split('|').map(|s| s.trim().to_string()).collect();
            let vals = vals.split(";;").map(|r| r.split('|').map(|s| s.trim().to_string()).collect()).collect();
            body = Some((vars, vals, String::new()));
            continue;
        }
        if t == "@endfor" {
            let (vars, vals, b) = body.take().expect("@endfor");
            for v in vals {
                let mut x = b.clone();
                for (k, val) in vars.iter().zip(&v) {
                    x = x.replace(k.as_str(), val);
                }
                out.push_str(&x);
            }
            continue;
        }
        let sink = match &mut body {
            Some((_, _, b)) => b,
            None => &mut out,
        };
        sink.push_str(line);
        sink.push('\n');
    }
    out
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let root = args[1].clone();
    let outp = &args[2];
    let mapp = &args[3];
    let mut files = Files { root, cache: Default::default(), known: Default::default(), lists: Default::default(), consts: None };
    for vc in &args[4..] {
        let text = expand_for(&std::fs::read_to_string(vc).unwrap_or_else(|e| panic!("{vc}: {e}")));
        for l in text.lines() {
            if let Some(r) = l.trim_start().strip_prefix("@fn ") {
                files.known.insert(r.rsplit(" / ").next().unwrap().split_whitespace().last().unwrap().to_string());
            } else if let Some(r) = l.trim_start().strip_prefix("@call ") {
                files.known.insert(r.split("=>").next().unwrap().trim().trim_start_matches('.').rsplit("::").next().unwrap().to_string());
            }
        }
    }
    let mut out = String::new();
    let mut map: Vec<Emitted> = vec![];
    let forced: Vec<String> = std::env::var("VX_STUB").unwrap_or_default().split(',').map(|s| s.to_string()).collect();
    let mut dropped = vec![];
    out.push_str("#![allow(unused)]\n#![allow(non_snake_case)]\nextern crate alloc;\nuse vstd::prelude::*;\nverus! {\n");
    for vc in &args[4..] {
        let text = std::fs::read_to_string(vc).unwrap_or_else(|e| panic!("{vc}: {e}"));
        let text = expand_for(&text);
        writeln!(out, "// ==== {}", vc.rsplit('/').next().unwrap()).unwrap();
        let mut cur: Option<FnSpec> = None;
        let mut mode = String::from("verus"); // current text sink
        let mut loopn = 0usize;
        let flush = |cur: &mut Option<FnSpec>, files: &mut Files, out: &mut String, map: &mut Vec<Emitted>, dropped: &mut Vec<String>| {
            if let Some(fs) = cur.take() {
                let e = emit_fn(files, &fs, out, dropped, &forced);
                map.push(e);
            }
        };
        for line in text.lines() {
            let t = line.trim_start();
            if t.starts_with("@@") { continue; } // comment
            if let Some(rest) = t.strip_prefix('@') {
                let (d, arg) = rest.split_once(char::is_whitespace).unwrap_or((rest, ""));
                let arg = arg.trim();
                match d {
                    "verus" => {
                        flush(&mut cur, &mut files, &mut out, &mut map, &mut dropped);
                        mode = "verus".into();
                    }
                    "fn" => {
                        flush(&mut cur, &mut files, &mut out, &mut map, &mut dropped);
                        let (f, p) = arg.split_once(char::is_whitespace).unwrap();
                        cur = Some(FnSpec { file: f.into(), path: p.trim().into(), ..Default::default() });
                        mode = "spec".into();
                    }
                    "type" | "const" => {
                        flush(&mut cur, &mut files, &mut out, &mut map, &mut dropped);
                        // @type FILE ITEMPATH [| TYPE => TYPE]...: field types replaced by the ones declared in the contracts
                        let mut alts = arg.split(" | ");
                        let mut parts = alts.next().unwrap().splitn(2, char::is_whitespace);
                        let f = parts.next().unwrap();
                        let p = parts.next().unwrap().trim();
                        let segs: Vec<&str> = p.split(" / ").map(|s| s.trim()).collect();
                        let file = files.get(f).clone();
                        let Some(it) = find_item(&file.items, &segs) else { lost(format!("{f} :: {p} not found")) };
                        let mut it = strip_attrs_vis(it);
                        for r in alts {
                            let (a, b) = r.split_once("=>").unwrap();
                            let a = syn::parse_str::<syn::Type>(a).unwrap().to_token_stream().to_string();
                            let b = syn::parse_str::<syn::Type>(b).unwrap().to_token_stream().to_string();
                            let s = it.to_token_stream().to_string();
                            if !s.contains(&a) { lost(format!("{f} :: {p}: no field of type {a}")) }
                            it = syn::parse_str(&s.replace(&a, &b)).unwrap();
                        }
                        match &it {
                            syn::Item::Const(c) => {
                                writeln!(out, "pub exec const {}: {} ensures true {{ {} }}", c.ident, c.ty.to_token_stream(), c.expr.to_token_stream()).unwrap();
                            }
                            _ => writeln!(out, "{}", rustfmt(&it.to_token_stream().to_string())).unwrap(),
                        }
                        // #[derive(Ord)] on an enum without fields: the order of its variants
                        if let (Some(syn::Item::Enum(orig)), syn::Item::Enum(e)) = (find_item(&file.items, &segs), &it) {
                            let derives = |n: &str| orig.attrs.iter().any(|a| a.path().is_ident("derive") && a.meta.to_token_stream().to_string().split(|c: char| !c.is_alphanumeric()).any(|w| w == n));
                            if derives("Ord") && derives("PartialOrd") && e.variants.iter().all(|v| v.fields.is_empty() && v.discriminant.is_none()) {
                                let n = &e.ident;
                                let arms: Vec<String> = e.variants.iter().enumerate().map(|(i, v)| format!("{n}::{} => {i}", v.ident)).collect();
                                writeln!(out, "impl {n} {{\n  pub open spec fn rank(self) -> int {{ match self {{ {} }} }}", arms.join(", ")).unwrap();
                                writeln!(out, "  #[verifier::external_body] pub fn max(self, o: {n}) -> (r: {n}) ensures r == (if self.rank() > o.rank() {{ self }} else {{ o }}) {{ unimplemented!() }}").unwrap();
                                writeln!(out, "  #[verifier::external_body] pub fn min(self, o: {n}) -> (r: {n}) ensures r == (if self.rank() <= o.rank() {{ self }} else {{ o }}) {{ unimplemented!() }}\n}}").unwrap();
                            }
                        }
                        mode = "verus".into();
                    }
                    "constspec" => {
                        // a &str / &[&str] constant: emitted as a spec fn of its literal value and an exec fn/const with that contract
                        flush(&mut cur, &mut files, &mut out, &mut map, &mut dropped);
                        let mut parts = arg.splitn(2, char::is_whitespace);
                        let f = parts.next().unwrap();
                        let p = parts.next().unwrap().trim();
                        let segs: Vec<&str> = p.split(" / ").map(|s| s.trim()).collect();
                        let file = files.get(f).clone();
                        let Some(it) = find_item(&file.items, &segs) else { lost(format!("{f} :: {p} not found")) };
                        let (id, expr) = match it {
                            syn::Item::Const(c) => (c.ident.to_string(), (*c.expr).clone()),
                            syn::Item::Static(c) => (c.ident.to_string(), (*c.expr).clone()),
                            _ => lost(format!("{p}: not a const")),
                        };
                        let mut e = &expr;
                        while let syn::Expr::Reference(r) = e { e = &r.expr; }
                        match e {
                            syn::Expr::Lit(l) => {
                                let l = l.to_token_stream().to_string();
                                writeln!(out, "pub exec const {id}: &'static str ensures {id}@ == {l}@ {{ {l} }}").unwrap();
                            }
                            syn::Expr::Array(a) => {
                                let els: Vec<String> = a.elems.iter().map(|x| x.to_token_stream().to_string()).collect();
                                writeln!(out, "pub open spec fn spec_{id}() -> Seq<Seq<char>> {{ seq![{}] }}", els.iter().map(|l| format!("{l}@")).collect::<Vec<_>>().join(", ")).unwrap();
                                if matches!(&expr, syn::Expr::Array(_)) {
                                    writeln!(out, "#[verifier::external_body]\npub fn exec_{id}() -> (r: [&'static str; {}]) ensures strs(r@) == spec_{id}() {{ [{}] }}", els.len(), els.join(", ")).unwrap();
                                } else {
                                    writeln!(out, "#[verifier::external_body]\npub fn exec_{id}() -> (r: &'static [&'static str]) ensures strs(r@) == spec_{id}() {{ &[{}] }}", els.join(", ")).unwrap();
                                }
                                files.lists.insert(id.clone());
                            }
                            _ => lost(format!("{p}: unsupported constant")),
                        }
                        mode = "verus".into();
                    }
                    "list" => {
                        // @list FILE ITEMPATH FIELD NAME: the types constructed in a `FIELD: vec![Box::new(..), ..]` list
                        flush(&mut cur, &mut files, &mut out, &mut map, &mut dropped);
                        mode = "verus".into();
                        let parts: Vec<&str> = arg.split(" :: ").map(|s| s.trim()).collect();
                        let file = files.get(parts[0]).clone();
                        let segs: Vec<&str> = parts[1].split(" / ").map(|s| s.trim()).collect();
                        let Some(found) = find_in_items(&file.items, &segs, None) else { lost(format!("{} not found", arg)) };
                        let els = lower::box_list(&found.block, parts[2]).unwrap_or_else(|e| lost(format!("{arg}: {e}")));
                        writeln!(out, "{}", parts[3].replace("$LIST", &els.join(", ")).replace("$N", &els.len().to_string())).unwrap();
                        for (i, e) in els.iter().enumerate() {
                            let _ = (i, e);
                        }
                    }
                    _ => {
                        let c = cur.as_mut().unwrap_or_else(|| panic!("{vc}: @{d} outside @fn"));
                        match d {
                            "as" => c.name = Some(arg.into()),
                            "subst" => { let (a, b) = arg.split_once("=>").or_else(|| arg.split_once('=')).unwrap(); c.subst.push((a.trim().into(), b.trim().into())); }
                            "call" => { let (a, b) = arg.split_once("=>").unwrap(); c.calls.push((a.trim().into(), b.trim().into())); }
                            "ret" => c.ret = Some(arg.into()),
                            "kind" => c.kind = arg.into(),
                            "selfty" => c.selfty = Some(arg.into()),
                            "deps" => c.deps.extend(arg.split_whitespace().map(|s| s.to_string())),
                            "sig" => c.sig = Some(arg.into()),
                            "nloops" => c.nloops = Some(arg.parse().unwrap()),
                            "stub" => c.stub = true,
                            "attr" | "spec" | "start" | "end" | "implextra" => {
                                mode = d.into();
                                if !arg.is_empty() {
                                    let sink = match d { "attr" => &mut c.attr, "spec" => &mut c.spec, "start" => &mut c.start, "implextra" => &mut c.implextra, _ => &mut c.end };
                                    sink.push_str(arg); sink.push('\n');
                                }
                            }
                            "loop" | "loopstart" | "loopend" | "afterloop" => { mode = d.into(); loopn = arg.parse().unwrap(); }
                            _ => panic!("{vc}: unknown directive @{d}"),
                        }
                    }
                }
                continue;
            }
            if mode == "verus" {
                out.push_str(line);
                out.push('\n');
                continue;
            }
            let c = cur.as_mut().unwrap();
            let sink = match mode.as_str() {
                "attr" => &mut c.attr,
                "spec" => &mut c.spec,
                "start" => &mut c.start,
                "end" => &mut c.end,
                "implextra" => &mut c.implextra,
                "loop" => &mut c.loops.entry(loopn).or_default()[0],
                "loopstart" => &mut c.loops.entry(loopn).or_default()[1],
                "loopend" => &mut c.loops.entry(loopn).or_default()[2],
                "afterloop" => c.afterloop.entry(loopn).or_default(),
                _ => unreachable!(),
            };
            sink.push_str(line);
            sink.push('\n');
        }
        flush(&mut cur, &mut files, &mut out, &mut map, &mut dropped);
    }
    out.push_str("} // verus!\n");
    std::fs::write(outp, &out).unwrap();
    let esc = |s: &str| s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', "\\n");
    let mut j = String::from("{\"functions\":[\n");
    for (i, m) in map.iter().enumerate() {
        let lost = match &m.lost { Some(l) => format!("\"{}\"", esc(l)), None => "null".into() };
        let calls = m.calls.iter().map(|c| format!("\"{}\"", c)).collect::<Vec<_>>().join(",");
        writeln!(j, "  {{\"key\":\"{}\",\"deps\":\"{}\",\"name\":\"{}\",\"file\":\"{}\",\"path\":\"{}\",\"start\":{},\"end\":{},\"stub\":{},\"lost\":{},\"calls\":[{}]}}{}", esc(&m.key), m.deps.join(" "), esc(&m.name), esc(&m.file), esc(&m.path), m.start, m.end, m.stub, lost, calls, if i + 1 < map.len() { "," } else { "" }).unwrap();
    }
    j.push_str("],\n\"rules\":[\n");
    for (i, d) in dropped.iter().enumerate() {
        writeln!(j, "  \"{}\"{}", esc(d), if i + 1 < dropped.len() { "," } else { "" }).unwrap();
    }
    j.push_str("]}\n");
    std::fs::write(mapp, j).unwrap();
}
