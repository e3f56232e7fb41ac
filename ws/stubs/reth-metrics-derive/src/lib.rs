//! Stand-in for `metrics-derive`: `Default`, `new_with_labels`, `describe` and `Debug` for a struct of handles.
use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Data, DeriveInput, Fields, Type};

#[proc_macro_derive(Metrics, attributes(metrics, metric))]
pub fn derive(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let name = &input.ident;
    let mut scope = String::from("scope");
    for a in &input.attrs {
        if a.path().is_ident("metrics") {
            let _ = a.parse_nested_meta(|m| {
                if m.path.is_ident("scope") {
                    let s: syn::LitStr = m.value()?.parse()?;
                    scope = s.value();
                } else if m.input.peek(syn::Token![=]) {
                    let _: syn::Expr = m.value()?.parse()?;
                }
                Ok(())
            });
        }
    }
    let fields = match &input.data {
        Data::Struct(s) => match &s.fields {
            Fields::Named(n) => &n.named,
            _ => panic!("named fields only"),
        },
        _ => panic!("structs only"),
    };
    let mut inits = vec![];
    let mut labelled = vec![];
    for f in fields {
        let id = f.ident.as_ref().unwrap();
        let mut skip = false;
        for a in &f.attrs {
            if a.path().is_ident("metric") {
                let _ = a.parse_nested_meta(|m| {
                    if m.path.is_ident("skip") {
                        skip = true;
                    } else if m.input.peek(syn::Token![=]) {
                        let _: syn::Expr = m.value()?.parse()?;
                    }
                    Ok(())
                });
            }
        }
        let kind = match &f.ty {
            Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
            _ => String::new(),
        };
        let full = format!("{scope}.{id}");
        let mac = match kind.as_str() {
            "Counter" => quote!(counter),
            "Gauge" => quote!(gauge),
            "Histogram" => quote!(histogram),
            _ => {
                skip = true;
                quote!(counter)
            }
        };
        if skip {
            inits.push(quote!(#id: Default::default()));
            labelled.push(quote!(#id: Default::default()));
        } else {
            inits.push(quote!(#id: ::reth_metrics::metrics::#mac!(#full)));
            labelled.push(quote!(#id: ::reth_metrics::metrics::#mac!(#full, labels.clone())));
        }
    }
    let text = name.to_string();
    quote! {
        impl Default for #name {
            fn default() -> Self { Self { #(#inits,)* } }
        }
        impl #name {
            #[allow(dead_code)]
            pub fn new_with_labels(labels: impl ::reth_metrics::metrics::IntoLabels + Clone) -> Self {
                Self { #(#labelled,)* }
            }
            #[allow(dead_code)]
            pub fn describe() {}
        }
        impl ::std::fmt::Debug for #name {
            fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { f.write_str(#text) }
        }
    }
    .into()
}
