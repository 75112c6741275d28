use proc_macro::TokenStream;
use quote::quote;
fn fields(d: &syn::DeriveInput) -> Vec<proc_macro2::TokenStream> {
    match &d.data {
        syn::Data::Struct(s) => s.fields.iter().enumerate().map(|(i, f)| match &f.ident {
            Some(n) => quote!(self.#n.zeroize();),
            None => { let i = syn::Index::from(i); quote!(self.#i.zeroize();) }
        }).collect(),
        _ => vec![],
    }
}
#[proc_macro_derive(Zeroize, attributes(zeroize))]
pub fn zeroize(t: TokenStream) -> TokenStream {
    let d: syn::DeriveInput = syn::parse(t).unwrap();
    let (n, f) = (&d.ident, fields(&d));
    let (i, ty, w) = d.generics.split_for_impl();
    quote!(impl #i ::zeroize::Zeroize for #n #ty #w { fn zeroize(&mut self) { #[allow(unused_imports)] use ::zeroize::Zeroize; #(#f)* } }).into()
}
#[proc_macro_derive(ZeroizeOnDrop, attributes(zeroize))]
pub fn zeroize_on_drop(t: TokenStream) -> TokenStream {
    let d: syn::DeriveInput = syn::parse(t).unwrap();
    let (n, f) = (&d.ident, fields(&d));
    let (i, ty, w) = d.generics.split_for_impl();
    quote!(
        impl #i ::core::ops::Drop for #n #ty #w { fn drop(&mut self) { #[allow(unused_imports)] use ::zeroize::Zeroize; #(#f)* } }
        impl #i ::zeroize::ZeroizeOnDrop for #n #ty #w {}
    ).into()
}
