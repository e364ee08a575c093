//! The attributes of pyo3 the Python package uses, for the simulated interpreter: they leave the items as they
//! are and add what the interpreter needs to call them.

use proc_macro::{Delimiter, Group, TokenStream, TokenTree};

/// Removes `#[pyo3(..)]` and the like; returns the text of the last `signature = (..)` among them.
fn strip(ts: TokenStream, sig: &mut Option<String>) -> TokenStream {
    let mut out: Vec<TokenTree> = vec![];
    let mut it = ts.into_iter().peekable();
    while let Some(t) = it.next() {
        if let TokenTree::Punct(p) = &t {
            if p.as_char() == '#' {
                if let Some(TokenTree::Group(g)) = it.peek() {
                    let first = g.stream().into_iter().next().map(|x| x.to_string()).unwrap_or_default();
                    if matches!(first.as_str(), "pyo3" | "new" | "getter" | "setter" | "staticmethod" | "classmethod" | "text_signature") {
                        find_signature(g.stream(), sig);
                        it.next();
                        continue;
                    }
                }
            }
        }
        out.push(match t {
            TokenTree::Group(g) => {
                let mut n = Group::new(g.delimiter(), strip(g.stream(), sig));
                n.set_span(g.span());
                TokenTree::Group(n)
            }
            t => t,
        });
    }
    out.into_iter().collect()
}

fn find_signature(ts: TokenStream, sig: &mut Option<String>) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    for (i, t) in v.iter().enumerate() {
        match t {
            TokenTree::Ident(n) if n.to_string() == "signature" => {
                if let Some(TokenTree::Group(g)) = v.get(i + 2) {
                    *sig = Some(g.stream().to_string());
                }
            }
            TokenTree::Group(g) => find_signature(g.stream(), sig),
            _ => (),
        }
    }
}

/// Splits at commas outside of angle brackets.
fn split(ts: TokenStream) -> Vec<Vec<TokenTree>> {
    let mut v = vec![vec![]];
    let mut depth = 0;
    let mut last = ' ';
    for t in ts {
        if let TokenTree::Punct(p) = &t {
            match p.as_char() {
                '<' => depth += 1,
                '>' if last != '-' => depth -= 1,
                ',' if depth == 0 => {
                    v.push(vec![]);
                    last = ',';
                    continue;
                }
                _ => (),
            }
            last = p.as_char();
        } else {
            last = ' ';
        }
        v.last_mut().unwrap().push(t);
    }
    v.retain(|x| !x.is_empty());
    v
}

fn text(v: &[TokenTree]) -> String {
    v.iter().cloned().collect::<TokenStream>().to_string()
}

struct Func {
    name: String,
    params: Vec<(String, String)>,
    by_ref: bool,
}

/// The functions in a token stream: name and parameters.
fn functions(ts: &TokenStream) -> Vec<Func> {
    let v: Vec<TokenTree> = ts.clone().into_iter().collect();
    let mut out = vec![];
    for (i, t) in v.iter().enumerate() {
        let TokenTree::Ident(k) = t else { continue };
        if k.to_string() != "fn" {
            continue;
        }
        let Some(TokenTree::Ident(name)) = v.get(i + 1) else { continue };
        let Some(TokenTree::Group(g)) = v[i + 2..].iter().find(|t| matches!(t, TokenTree::Group(g) if g.delimiter() == Delimiter::Parenthesis)) else { continue };
        let mut f = Func { name: name.to_string(), params: vec![], by_ref: false };
        for p in split(g.stream()) {
            let at = p.iter().position(|t| matches!(t, TokenTree::Punct(c) if c.as_char() == ':'));
            match at {
                None => f.by_ref = true,
                Some(at) => {
                    let mut n = text(&p[..at]);
                    if let Some(x) = n.strip_prefix("mut ") {
                        n = x.to_string();
                    }
                    f.params.push((n.trim().to_string(), text(&p[at + 1..])));
                }
            }
        }
        out.push(f);
    }
    out
}

fn is_py(ty: &str) -> bool {
    ty.split(|c: char| !c.is_alphanumeric() && c != '_').filter(|s| !s.is_empty() && *s != "pyo3" && *s != "prelude").next() == Some("Python")
}

#[proc_macro_attribute]
pub fn pyfunction(attr: TokenStream, item: TokenStream) -> TokenStream {
    let mut sig = None;
    find_signature(attr, &mut sig);
    let mut item = strip(item, &mut sig);
    let f = functions(&item).into_iter().next().expect("a function");
    let names: Vec<&(String, String)> = f.params.iter().filter(|p| !is_py(&p.1)).collect();
    let sig = sig.unwrap_or_else(|| names.iter().map(|p| p.0.clone()).collect::<Vec<_>>().join(", "));
    let args: Vec<String> = f
        .params
        .iter()
        .map(|(n, t)| if is_py(t) { "py".into() } else { format!("::pyo3::impl_::take::<{t}>(&mut args, {n:?})?") })
        .collect();
    let n = &f.name;
    let more = format!(
        "#[allow(unused_imports, non_snake_case)] pub(crate) mod {n} {{ use super::*; pub(crate) fn def() -> ::pyo3::impl_::FnDef {{\
           ::pyo3::impl_::FnDef {{ name: {n:?}, signature: {sig:?}, call: |py, args| {{ let mut args = args; ::pyo3::impl_::Ret::ret(super::{n}({})) }} }} }} }}",
        args.join(", ")
    );
    item.extend(more.parse::<TokenStream>().expect("generated code"));
    item
}

#[proc_macro_attribute]
pub fn pymodule(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let mut item = strip(item, &mut None);
    let f = functions(&item).into_iter().next().expect("a function");
    let n = &f.name;
    let args = f.params.iter().map(|p| if is_py(&p.1) { "py" } else { "&m" }).collect::<Vec<_>>().join(", ");
    let more = format!(
        "#[allow(unused_imports)] pub(crate) mod {n} {{ use super::*; pub(crate) fn init<'py>(py: ::pyo3::Python<'py>) -> ::pyo3::PyResult<::pyo3::Bound<'py, ::pyo3::types::PyModule>> {{\
           let m = ::pyo3::impl_::new_module(py); super::{n}({args})?; Ok(m) }} }}"
    );
    item.extend(more.parse::<TokenStream>().expect("generated code"));
    item
}

#[proc_macro_attribute]
pub fn pyclass(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let mut item = strip(item, &mut None);
    let v: Vec<TokenTree> = item.clone().into_iter().collect();
    let at = v.iter().position(|t| matches!(t, TokenTree::Ident(i) if i.to_string() == "struct")).expect("a struct");
    let n = v[at + 1].to_string();
    item.extend(format!("impl ::pyo3::impl_::PyClass for {n} {{ const NAME: &'static str = {n:?}; }}").parse::<TokenStream>().expect("generated code"));
    item
}

#[proc_macro_attribute]
pub fn pymethods(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let mut item = strip(item, &mut None);
    let v: Vec<TokenTree> = item.clone().into_iter().collect();
    let body = v
        .iter()
        .rev()
        .find_map(|t| match t {
            TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => Some(g.stream()),
            _ => None,
        })
        .expect("a body");
    let at = v.iter().position(|t| matches!(t, TokenTree::Ident(i) if i.to_string() == "impl")).expect("an impl");
    let n = v[at + 1].to_string();
    let mut arms = String::new();
    for f in functions(&body) {
        if f.by_ref && f.params.iter().all(|p| is_py(&p.1)) {
            let args = f.params.iter().map(|_| "py").collect::<Vec<_>>().join(", ");
            arms.push_str(&format!("{:?} => Some(::pyo3::impl_::Ret::ret(self.{}({args}))),", f.name, f.name));
        }
    }
    item.extend(
        format!("impl ::pyo3::impl_::Methods for {n} {{ #[allow(unused_variables)] fn call_method(&self, py: ::pyo3::Python<'_>, name: &str) -> Option<::pyo3::PyResult<::pyo3::impl_::Obj>> {{ match name {{ {arms} _ => None }} }} }}")
            .parse::<TokenStream>()
            .expect("generated code"),
    );
    item
}
