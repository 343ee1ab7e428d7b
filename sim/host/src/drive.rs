//! Adds one wrapper function next to every generated binding, so that a driver can call it with Python objects.
//! The wrapper has the same signature for all bindings: (py, self or None, dict of arguments) -> object.
use pyo3::prelude::*;
use pyo3::types::{PyDict, PyList};
use quote::{format_ident, quote, ToTokens};

struct Ctx<'a, 'py> {
    py: Python<'py>,
    table: Bound<'py, PyList>,
    first: usize,
    root: &'a str,
}

fn type_text(t: &syn::Type) -> String {
    t.to_token_stream().to_string()
}

/// how to obtain a value of the given parameter type from a Python object
fn argument(ty: &syn::Type, key: &str, n: usize) -> (proc_macro2::TokenStream, proc_macro2::TokenStream) {
    let id = format_ident!("sim_a{}", n);
    let text = type_text(ty);
    match ty {
        syn::Type::ImplTrait(_) => {
            if text.contains("IntoPyDict") {
                (quote! { let #id: ::pyo3::Bound<'py, ::pyo3::types::PyDict> = crate::arg(sim_args, #key)?; }, quote! { #id })
            } else if text.contains("PyTuple") {
                (quote! { let #id: ::pyo3::Bound<'py, ::pyo3::types::PyTuple> = crate::arg(sim_args, #key)?; }, quote! { #id })
            } else {
                (quote! { let #id: ::pyo3::Bound<'py, ::pyo3::types::PyAny> = crate::arg(sim_args, #key)?; }, quote! { #id })
            }
        }
        syn::Type::Reference(r) => {
            let inner = &*r.elem;
            let owned = match inner {
                syn::Type::Slice(s) => {
                    let e = &s.elem;
                    quote! { ::std::vec::Vec<#e> }
                }
                other => {
                    let t = type_text(other);
                    if t == "str" {
                        quote! { ::std::string::String }
                    } else if t.ends_with(":: Path") && t.contains("std") {
                        quote! { ::std::path::PathBuf }
                    } else {
                        quote! { #other }
                    }
                }
            };
            (quote! { let #id: #owned = crate::arg(sim_args, #key)?; }, quote! { &#id })
        }
        other => (quote! { let #id: #other = crate::arg(sim_args, #key)?; }, quote! { #id }),
    }
}

impl Ctx<'_, '_> {
    /// wrapper of one function; `call` gives the path to it
    fn wrapper(&self, path: &[String], class: Option<&syn::Ident>, sig: &syn::Signature, public: bool) -> PyResult<proc_macro2::TokenStream> {
        let k = self.first + self.table.len();
        let wrapper = format_ident!("sim_call_{}", k);
        let fname = &sig.ident;
        let mut prep = proc_macro2::TokenStream::new();
        let mut args = Vec::new();
        let params = PyList::empty_bound(self.py);
        let mut method = false;
        for (n, input) in sig.inputs.iter().enumerate() {
            match input {
                syn::FnArg::Receiver(_) => method = true,
                syn::FnArg::Typed(t) => {
                    let name = match &*t.pat {
                        syn::Pat::Ident(i) => i.ident.to_string(),
                        other => other.to_token_stream().to_string(),
                    };
                    let name = name.trim_start_matches("r#").to_string();
                    if name == "py" && type_text(&t.ty).contains("Python") {
                        args.push(quote! { py });
                        continue;
                    }
                    let key = name;
                    let (p, a) = argument(&t.ty, &key, n);
                    prep.extend(p);
                    args.push(a);
                    params.append((key, type_text(&t.ty)))?;
                }
            }
        }
        let call = match (class, method) {
            (Some(c), true) => {
                let tr = format_ident!("{}Methods", c.to_string().trim_start_matches("r#"));
                prep.extend(quote! { let sim_self: ::pyo3::Bound<'py, #c> = crate::me(sim_self)?; });
                quote! { #tr::#fname(&sim_self, #(#args),*) }
            }
            (Some(c), false) => quote! { #c::#fname(#(#args),*) },
            _ => quote! { #fname(#(#args),*) },
        };
        let d = PyDict::new_bound(self.py);
        d.set_item("root", self.root)?;
        d.set_item("path", path)?;
        d.set_item("class", class.map(|c| c.to_string()))?;
        d.set_item("name", fname.to_string())?;
        d.set_item("method", method)?;
        d.set_item("public", public)?;
        d.set_item("params", params)?;
        d.set_item("ret", match &sig.output {
            syn::ReturnType::Default => String::new(),
            syn::ReturnType::Type(_, t) => type_text(t),
        })?;
        self.table.append(d)?;
        let ret = match &sig.output {
            syn::ReturnType::Default => String::new(),
            syn::ReturnType::Type(_, t) => type_text(t),
        };
        // types without IntoPy
        let result = if ["IpAddr", "Ipv4Addr", "Ipv6Addr"].iter().any(|t| ret.contains(t)) {
            quote! { ::pyo3::ToPyObject::to_object(&sim_result, py) }
        } else {
            quote! { ::pyo3::IntoPy::into_py(sim_result, py) }
        };
        Ok(quote! {
            #[doc(hidden)]
            pub fn #wrapper<'py>(py: ::pyo3::marker::Python<'py>, sim_self: &::pyo3::Bound<'py, ::pyo3::types::PyAny>, sim_args: &::pyo3::Bound<'py, ::pyo3::types::PyDict>) -> ::pyo3::PyResult<::pyo3::PyObject> {
                #prep
                let sim_result = #call?;
                let sim_object: ::pyo3::PyObject = #result;
                ::std::result::Result::Ok(sim_object)
            }
        })
    }

    fn walk(&self, path: &mut Vec<String>, items: &mut Vec<syn::Item>) -> PyResult<()> {
        let mut extra = proc_macro2::TokenStream::new();
        for it in items.iter_mut() {
            match it {
                syn::Item::Mod(m) => {
                    if let Some((_, items)) = &mut m.content {
                        path.push(m.ident.to_string());
                        self.walk(path, items)?;
                        path.pop();
                    }
                }
                syn::Item::Fn(f) => extra.extend(self.wrapper(path, None, &f.sig, matches!(f.vis, syn::Visibility::Public(_)))?),
                syn::Item::Impl(i) if i.trait_.is_none() => {
                    if let syn::Type::Path(p) = &*i.self_ty {
                        let c = p.path.segments.last().unwrap().ident.clone();
                        for x in &i.items {
                            if let syn::ImplItem::Fn(f) = x {
                                extra.extend(self.wrapper(path, Some(&c), &f.sig, matches!(f.vis, syn::Visibility::Public(_)))?);
                            }
                        }
                    }
                }
                syn::Item::Trait(t) => {
                    let n = t.ident.to_string();
                    if let Some(c) = n.strip_suffix("Methods") {
                        let c: syn::Ident = syn::parse_str(c).unwrap_or_else(|_| syn::parse_str(&format!("r#{c}")).unwrap_or_else(|_| format_ident!("sim_unknown")));
                        for x in &t.items {
                            if let syn::TraitItem::Fn(f) = x {
                                extra.extend(self.wrapper(path, Some(&c), &f.sig, true)?);
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        let more: syn::File = syn::parse2(extra).map_err(|e| pyo3::exceptions::PyValueError::new_err(e.to_string()))?;
        items.extend(more.items);
        Ok(())
    }
}

/// (text with wrappers, table of the wrappers); the wrappers are numbered from `first`
pub fn drive(py: Python<'_>, text: &str, root: &str, first: usize) -> PyResult<(String, PyObject)> {
    let mut f = syn::parse_file(text).map_err(|e| pyo3::exceptions::PyValueError::new_err(e.to_string()))?;
    let table = PyList::empty_bound(py);
    let ctx = Ctx { py, table: table.clone(), first, root };
    ctx.walk(&mut Vec::new(), &mut f.items)?;
    f.attrs.clear();
    Ok((f.to_token_stream().to_string(), table.into_py(py)))
}
