//! Structural view of generated bindings: nested (kind, name, body, docs, children) tuples.
use pyo3::prelude::*;
use pyo3::types::PyList;
use quote::ToTokens;

fn docs(attrs: &[syn::Attribute]) -> Option<String> {
    let mut out: Option<String> = None;
    for a in attrs {
        if a.path().is_ident("doc") {
            if let syn::Meta::NameValue(nv) = &a.meta {
                if let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) = &nv.value {
                    out = Some(match out {
                        None => s.value(),
                        Some(o) => o + "\n" + &s.value(),
                    });
                }
            }
        }
    }
    out
}

fn name_of_type(t: &syn::Type) -> String {
    t.to_token_stream().to_string()
}

type Row = (String, String, String, Option<String>, PyObject);

fn walk(py: Python<'_>, items: &[syn::Item]) -> PyObject {
    let l = PyList::empty_bound(py);
    let none = py.None();
    for it in items {
        let row: Row = match it {
            syn::Item::Mod(m) => {
                let kids = match &m.content {
                    Some((_, items)) => walk(py, items),
                    None => none.clone(),
                };
                let attrs: Vec<String> = m
                    .attrs
                    .iter()
                    .filter(|a| !a.path().is_ident("doc"))
                    .map(|a| a.to_token_stream().to_string())
                    .collect();
                ("mod".into(), m.ident.to_string(), attrs.join(" "), docs(&m.attrs), kids)
            }
            syn::Item::Fn(f) => {
                let mut g = f.clone();
                g.attrs.clear();
                ("fn".into(), f.sig.ident.to_string(), g.to_token_stream().to_string(), docs(&f.attrs), none.clone())
            }
            syn::Item::Struct(s) => {
                let mut g = s.clone();
                g.attrs.clear();
                ("struct".into(), s.ident.to_string(), g.to_token_stream().to_string(), docs(&s.attrs), none.clone())
            }
            syn::Item::Trait(t) => {
                let kids = PyList::empty_bound(py);
                for i in &t.items {
                    if let syn::TraitItem::Fn(f) = i {
                        let mut g = f.clone();
                        g.attrs.clear();
                        let _ = kids.append((
                            "fn",
                            f.sig.ident.to_string(),
                            g.to_token_stream().to_string(),
                            docs(&f.attrs),
                            none.clone(),
                        ));
                    }
                }
                ("trait".into(), t.ident.to_string(), String::new(), None, kids.into_py(py))
            }
            syn::Item::Impl(t) => {
                let kids = PyList::empty_bound(py);
                for i in &t.items {
                    if let syn::ImplItem::Fn(f) = i {
                        let mut g = f.clone();
                        g.attrs.clear();
                        let _ = kids.append((
                            "fn",
                            f.sig.ident.to_string(),
                            g.to_token_stream().to_string(),
                            docs(&f.attrs),
                            none.clone(),
                        ));
                    }
                }
                let kind = if t.trait_.is_some() { "traitimpl" } else { "impl" };
                (kind.into(), name_of_type(&t.self_ty), String::new(), None, kids.into_py(py))
            }
            syn::Item::Type(t) => ("type".into(), t.ident.to_string(), t.to_token_stream().to_string(), None, none.clone()),
            syn::Item::Use(u) => ("use".into(), u.tree.to_token_stream().to_string(), u.to_token_stream().to_string(), None, none.clone()),
            syn::Item::Macro(m) => ("macro".into(), m.mac.path.to_token_stream().to_string(), m.to_token_stream().to_string(), None, none.clone()),
            other => ("other".into(), String::new(), other.to_token_stream().to_string(), None, none.clone()),
        };
        let _ = l.append(row);
    }
    l.into_py(py)
}

pub fn items(py: Python<'_>, text: &str) -> PyResult<PyObject> {
    let f = syn::parse_file(text)
        .map_err(|e| pyo3::exceptions::PyValueError::new_err(e.to_string()))?;
    Ok(walk(py, &f.items))
}
