//! Stand-in for the macros of wasm-bindgen and tsify: what is imported becomes a handle whose
//! methods call an object of the harness by name; what is exported stays as it is.
use proc_macro::TokenStream;
use quote::quote;
use syn::{FnArg, ForeignItem, Item, ReturnType, parse_macro_input};

#[proc_macro_attribute]
pub fn wasm_bindgen(_args: TokenStream, item: TokenStream) -> TokenStream {
    let keep = item.clone();
    // methods of exported types are no items of their own
    let Ok(Item::ForeignMod(m)) = syn::parse::<Item>(item) else { return keep };
    let mut out = quote! {};
    for i in m.items {
        match i {
            ForeignItem::Type(t) => {
                let (vis, id) = (t.vis, t.ident);
                out.extend(quote! { #vis struct #id(pub ::std::rc::Rc<dyn ::wasm_bindgen::Imported>); });
            }
            ForeignItem::Fn(f) => {
                let (vis, sig) = (f.vis, f.sig);
                let (name, ret) = (&sig.ident, &sig.output);
                let mut js = name.to_string();
                for a in &f.attrs {
                    let t = quote! { #a }.to_string();
                    if let Some(i) = t.find("js_name = ") {
                        js = t[i + 10..].trim_start_matches('"').split(|c: char| !c.is_alphanumeric() && c != '_').next().unwrap_or("").to_string();
                    }
                }
                let mut args = sig.inputs.iter();
                let Some(FnArg::Typed(this)) = args.next() else { panic!("a method is expected") };
                let ty = match &*this.ty {
                    syn::Type::Reference(r) => (*r.elem).clone(),
                    t => t.clone(),
                };
                let rest: Vec<_> = args.cloned().collect();
                let names: Vec<_> = rest
                    .iter()
                    .map(|a| match a {
                        FnArg::Typed(t) => (*t.pat).clone(),
                        _ => panic!("receiver"),
                    })
                    .collect();
                let ReturnType::Type(..) = ret else { panic!("a result is expected") };
                out.extend(quote! {
                    impl #ty {
                        #vis fn #name(&self, #(#rest),*) #ret {
                            let r = self.0.call(#js, &[#(::wasm_bindgen::JsValue::from(::std::clone::Clone::clone(#names))),*])?;
                            ::std::convert::TryFrom::try_from(r)
                        }
                    }
                });
            }
            _ => panic!("not expected here"),
        }
    }
    out.into()
}

#[proc_macro_derive(Tsify, attributes(tsify))]
pub fn tsify(item: TokenStream) -> TokenStream {
    let _ = parse_macro_input!(item as syn::DeriveInput);
    TokenStream::new()
}
