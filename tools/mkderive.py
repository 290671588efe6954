#!/usr/bin/env python3
"""mkderive.py REPO OUT: a program crate made from REPO/schemars_derive's own sources.

What is changed: the `#[proc_macro_derive]` attributes (and the documentation attributes) on the entry points are dropped,
`proc_macro::TokenStream` becomes `proc_macro2::TokenStream`, `parse_macro_input!` is the same match over syn::parse2,
and a main is added that runs the entry point of `JsonSchema` on every item of a file and prints what it generates.
Everything else is copied as it is."""
import os, re, shutil, sys

MAIN = r'''
fn main() {
    let src = std::fs::read_to_string(std::env::args().nth(1).unwrap()).unwrap();
    let f = syn::parse_file(&src).unwrap();
    for it in &f.items {
        let name = match it { syn::Item::Struct(s) => s.ident.to_string(), syn::Item::Enum(s) => s.ident.to_string(), _ => continue };
        let out: proc_macro2::TokenStream = ENTRY(quote::ToTokens::to_token_stream(it));
        // const _: () = { [use ..;] impl .. };
        match syn::parse2::<syn::ItemConst>(out.clone()) {
            Ok(c) => match *c.expr {
                syn::Expr::Block(b) => {
                    let items = b.block.stmts.iter().filter(|s| matches!(s, syn::Stmt::Item(_)));
                    println!("mod {} {{ {} }}", name, quote::quote!(#(#items)*));
                }
                _ => println!("// {name}: unexpected shape"),
            },
            Err(_) => println!("// {name}: {out}"),
        }
    }
}
'''
PRE = '''
macro_rules! parse_macro_input {
    ($i:ident as $t:ty) => { match syn::parse2::<$t>($i) { Ok(x) => x, Err(e) => return e.to_compile_error() } };
}
'''


def attrs_end(t, i):
    """t[i:] starts with `#[`: index after its `]`"""
    d, j = 0, i + 1
    q = False
    while j < len(t):
        c = t[j]
        if q:
            if c == "\\":
                j += 1
            elif c == '"':
                q = False
        elif c == '"':
            q = True
        elif c == "[":
            d += 1
        elif c == "]":
            d -= 1
            if d == 0:
                return j + 1
        j += 1
    raise SystemExit("unbalanced attribute")


def main(repo, out):
    src = os.path.join(repo, "schemars_derive", "src")
    shutil.rmtree(os.path.join(out, "src"), ignore_errors=True)
    os.makedirs(out, exist_ok=True)
    shutil.copytree(src, os.path.join(out, "src"))
    lib = os.path.join(out, "src", "lib.rs")
    t = open(lib).read()
    entry = re.search(r"#\[proc_macro_derive\(\s*JsonSchema\b.*?\bfn\s+(\w+)", t, re.S).group(1)
    # outer attributes on the entry points, and the lints of the crate
    r, i = "", 0
    while i < len(t):
        if t.startswith("#![", i):
            i = attrs_end(t, i + 1)
            continue
        if t.startswith("#[", i):
            j = attrs_end(t, i)
            if re.match(r"#\[\s*(proc_macro_derive|cfg_attr|doc)\b", t[i:j]):
                i = j
                continue
            r += t[i:j]
            i = j
            continue
        r += t[i]
        i += 1
    r = re.sub(r"\bproc_macro::TokenStream", "proc_macro2::TokenStream", r)
    r = r.replace("extern crate proc_macro;", "")
    os.remove(lib)
    open(os.path.join(out, "src", "main.rs"), "w").write("#![allow(warnings)]\n" + PRE + r + MAIN.replace("ENTRY", entry))
    here = os.path.dirname(os.path.abspath(__file__))
    cargo = open(os.path.join(repo, "schemars_derive", "Cargo.toml")).read()
    deps = re.search(r"\[dependencies\]\n(.*?)(\n\[|\Z)", cargo, re.S).group(1)
    deps = re.sub(r'syn = "([^"]*)"', r'syn = { version = "\1", features = ["full", "extra-traits"] }', deps)
    open(os.path.join(out, "Cargo.toml"), "w").write('[package]\nname = "expand"\nversion = "0.1.0"\nedition = "2021"\n\n[dependencies]\n' + deps + "\n[workspace]\n\n[profile.dev]\ndebug = 0\n")
    shutil.copy(os.path.join(here, "..", "derive", "Cargo.lock"), os.path.join(out, "Cargo.lock"))


main(sys.argv[1], sys.argv[2])
