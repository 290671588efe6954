//! Expansion of the repository's own item-level `macro_rules!` (matcher fragments ident, ty, tt, expr, literal, lifetime, path, block, pat, item
//! and `$(..) sep op` repetitions), so that macro-generated impls are found and extracted like written ones.
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use std::collections::BTreeMap;
use syn::parse::Parser;

#[derive(Clone, Debug)]
enum Pat {
    Frag(String, String),
    Rep(Vec<Pat>, Option<TokenTree>, char),
    Tok(TokenTree),
    Grp(Delimiter, Vec<Pat>),
}
#[derive(Clone, Debug)]
enum Bind {
    One(TokenStream),
    Many(Vec<BTreeMap<String, Bind>>),
}
type Binds = BTreeMap<String, Bind>;
pub struct MacroDef(Vec<(Vec<Pat>, TokenStream)>);

fn is_p(t: Option<&TokenTree>, c: char) -> bool {
    matches!(t, Some(TokenTree::Punct(p)) if p.as_char() == c)
}
fn parse_pats(ts: TokenStream) -> Option<Vec<Pat>> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < v.len() {
        if is_p(v.get(i), '$') {
            match v.get(i + 1) {
                Some(TokenTree::Ident(n)) if is_p(v.get(i + 2), ':') => {
                    let Some(TokenTree::Ident(k)) = v.get(i + 3) else { return None };
                    out.push(Pat::Frag(n.to_string(), k.to_string()));
                    i += 4;
                    continue;
                }
                Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Parenthesis => {
                    let inner = parse_pats(g.stream())?;
                    i += 2;
                    let (sep, op, n) = rep_tail(&v[i..])?;
                    out.push(Pat::Rep(inner, sep, op));
                    i += n;
                    continue;
                }
                _ => return None,
            }
        }
        match &v[i] {
            TokenTree::Group(g) => out.push(Pat::Grp(g.delimiter(), parse_pats(g.stream())?)),
            t => out.push(Pat::Tok(t.clone())),
        }
        i += 1;
    }
    Some(out)
}
/// after `$( .. )`: optional separator and the operator
fn rep_tail(v: &[TokenTree]) -> Option<(Option<TokenTree>, char, usize)> {
    let op = |t: Option<&TokenTree>| match t {
        Some(TokenTree::Punct(p)) if "*+?".contains(p.as_char()) => Some(p.as_char()),
        _ => None,
    };
    if let (Some(_), Some(o)) = (v.first(), op(v.get(1))) {
        if op(v.first()).is_none() {
            return Some((v.first().cloned(), o, 2));
        }
    }
    op(v.first()).map(|o| (None, o, 1))
}
pub fn parse_def(ts: TokenStream) -> Option<MacroDef> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut rules = vec![];
    let mut i = 0;
    while i < v.len() {
        let TokenTree::Group(m) = v.get(i)? else { return None };
        if !(is_p(v.get(i + 1), '=') && is_p(v.get(i + 2), '>')) {
            return None;
        }
        let TokenTree::Group(b) = v.get(i + 3)? else { return None };
        if let Some(p) = parse_pats(m.stream()) {
            rules.push((p, b.stream()));
        }
        i += 4;
        if is_p(v.get(i), ';') {
            i += 1;
        }
    }
    Some(MacroDef(rules))
}
fn frag(kind: &str, v: &[TokenTree]) -> Option<usize> {
    fn by<T: syn::parse::Parse>(v: &[TokenTree]) -> Option<usize> {
        let ts: TokenStream = v.iter().cloned().collect();
        let p = |i: syn::parse::ParseStream| -> syn::Result<usize> {
            let _: T = i.parse()?;
            let rest: TokenStream = i.parse()?;
            Ok(rest.into_iter().count())
        };
        p.parse2(ts).ok().map(|r| v.len() - r)
    }
    if v.is_empty() {
        return None;
    }
    match kind {
        "ident" => matches!(v[0], TokenTree::Ident(_)).then_some(1),
        "tt" => Some(1),
        "literal" => match &v[0] {
            TokenTree::Literal(_) => Some(1),
            TokenTree::Ident(i) if i == "true" || i == "false" => Some(1),
            TokenTree::Punct(p) if p.as_char() == '-' && matches!(v.get(1), Some(TokenTree::Literal(_))) => Some(2),
            _ => None,
        },
        "ty" => by::<syn::Type>(v),
        "expr" => by::<syn::Expr>(v),
        "path" => by::<syn::Path>(v),
        "block" => by::<syn::Block>(v),
        "item" => by::<syn::Item>(v),
        "lifetime" => by::<syn::Lifetime>(v),
        _ => None,
    }
}
fn same_tok(a: &TokenTree, b: &TokenTree) -> bool {
    a.to_string() == b.to_string()
}
/// matches `pats` at the start of `v`; the number of tokens used
fn matcher(pats: &[Pat], v: &[TokenTree], b: &mut Binds) -> Option<usize> {
    let mut i = 0;
    for (pi, p) in pats.iter().enumerate() {
        match p {
            Pat::Tok(t) => {
                if !v.get(i).is_some_and(|x| same_tok(x, t)) {
                    return None;
                }
                i += 1;
            }
            Pat::Grp(d, inner) => {
                let Some(TokenTree::Group(g)) = v.get(i) else { return None };
                if g.delimiter() != *d {
                    return None;
                }
                let s: Vec<TokenTree> = g.stream().into_iter().collect();
                if matcher(inner, &s, b)? != s.len() {
                    return None;
                }
                i += 1;
            }
            Pat::Frag(n, k) => {
                let c = frag(k, &v[i..])?;
                b.insert(n.clone(), Bind::One(v[i..i + c].iter().cloned().collect()));
                i += c;
            }
            Pat::Rep(inner, sep, op) => {
                let mut many: Vec<Binds> = vec![];
                loop {
                    if i >= v.len() || (*op == '?' && many.len() == 1) {
                        break;
                    }
                    let mut j = i;
                    if !many.is_empty() {
                        if let Some(s) = sep {
                            if !same_tok(&v[j], s) {
                                break;
                            }
                            j += 1;
                        }
                    }
                    let mut nb = Binds::new();
                    match matcher(inner, &v[j..], &mut nb) {
                        Some(c) if c > 0 => {
                            i = j + c;
                            many.push(nb);
                        }
                        _ => break,
                    }
                }
                if *op == '+' && many.is_empty() {
                    return None;
                }
                let mut names = vec![];
                pat_names(inner, &mut names);
                for n in names {
                    b.insert(n, Bind::Many(many.clone()));
                }
            }
        }
        let _ = pi;
    }
    Some(i)
}
fn pat_names(p: &[Pat], out: &mut Vec<String>) {
    for x in p {
        match x {
            Pat::Frag(n, _) => out.push(n.clone()),
            Pat::Rep(i, ..) | Pat::Grp(_, i) => pat_names(i, out),
            _ => {}
        }
    }
}
fn used(ts: TokenStream, out: &mut Vec<String>) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    for (i, t) in v.iter().enumerate() {
        match t {
            TokenTree::Group(g) => used(g.stream(), out),
            TokenTree::Punct(p) if p.as_char() == '$' => {
                if let Some(TokenTree::Ident(n)) = v.get(i + 1) {
                    out.push(n.to_string());
                }
            }
            _ => {}
        }
    }
}
fn transcribe(ts: TokenStream, b: &Binds) -> Option<TokenStream> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = TokenStream::new();
    let mut i = 0;
    while i < v.len() {
        if is_p(v.get(i), '$') {
            match v.get(i + 1) {
                Some(TokenTree::Ident(n)) => {
                    match b.get(&n.to_string()) {
                        Some(Bind::One(t)) => out.extend(t.clone()),
                        Some(Bind::Many(_)) => return None,
                        None if n == "crate" => out.extend([v[i + 1].clone()]),
                        None => return None,
                    }
                    i += 2;
                    continue;
                }
                Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Parenthesis => {
                    let (sep, _, n) = rep_tail(&v[i + 2..])?;
                    let mut names = vec![];
                    used(g.stream(), &mut names);
                    let reps: Vec<&Vec<Binds>> = names.iter().filter_map(|n| if let Some(Bind::Many(m)) = b.get(n) { Some(m) } else { None }).collect();
                    let len = reps.first()?.len();
                    for k in 0..len {
                        let mut nb = b.clone();
                        for r in &reps {
                            for (name, x) in r.get(k)? {
                                nb.insert(name.clone(), x.clone());
                            }
                        }
                        if k > 0 {
                            if let Some(s) = &sep {
                                out.extend([s.clone()]);
                            }
                        }
                        out.extend(transcribe(g.stream(), &nb)?);
                    }
                    i += 2 + n;
                    continue;
                }
                _ => return None,
            }
        }
        match &v[i] {
            TokenTree::Group(g) => out.extend([TokenTree::Group(Group::new(g.delimiter(), transcribe(g.stream(), b)?))]),
            t => out.extend([t.clone()]),
        }
        i += 1;
    }
    Some(out)
}
fn expand_call(d: &MacroDef, args: TokenStream) -> Option<TokenStream> {
    let v: Vec<TokenTree> = args.into_iter().collect();
    for (p, t) in &d.0 {
        let mut b = Binds::new();
        if matcher(p, &v, &mut b) == Some(v.len()) {
            return transcribe(t.clone(), &b);
        }
    }
    None
}
pub fn collect(items: &[syn::Item], defs: &mut BTreeMap<String, MacroDef>) {
    for it in items {
        match it {
            syn::Item::Macro(m) if m.mac.path.is_ident("macro_rules") => {
                if let (Some(n), Some(d)) = (&m.ident, parse_def(m.mac.tokens.clone())) {
                    defs.insert(n.to_string(), d);
                }
            }
            syn::Item::Mod(m) => {
                if let Some((_, i)) = &m.content {
                    collect(i, defs)
                }
            }
            _ => {}
        }
    }
}
pub fn expand(items: &mut Vec<syn::Item>, defs: &BTreeMap<String, MacroDef>, depth: usize) {
    let mut out = vec![];
    for mut it in std::mem::take(items) {
        if let syn::Item::Macro(m) = &it {
            if let (true, Some(d)) = (depth < 8, m.mac.path.segments.last().and_then(|s| defs.get(&s.ident.to_string()))) {
                if let Some(f) = expand_call(d, m.mac.tokens.clone()).and_then(|t| syn::parse2::<syn::File>(t).ok()) {
                    let mut inner = f.items;
                    expand(&mut inner, defs, depth + 1);
                    out.extend(inner);
                    continue;
                }
            }
        }
        if let syn::Item::Mod(m) = &mut it {
            if let Some((_, i)) = &mut m.content {
                expand(i, defs, depth);
            }
        }
        if let syn::Item::Impl(i) = &mut it {
            let mut inner = vec![];
            for ii in std::mem::take(&mut i.items) {
                if let syn::ImplItem::Macro(m) = &ii {
                    if let Some(d) = m.mac.path.segments.last().and_then(|s| defs.get(&s.ident.to_string())) {
                        let ts = expand_call(d, m.mac.tokens.clone());
                        if let Some(x) = ts.and_then(|t| syn::parse2::<syn::ItemImpl>(quote::quote!(impl X { #t })).ok()) {
                            inner.extend(x.items);
                            continue;
                        }
                    }
                }
                inner.push(ii);
            }
            i.items = inner;
        }
        out.push(it);
    }
    *items = out;
}
