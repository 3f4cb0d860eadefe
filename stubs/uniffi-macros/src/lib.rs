//! Stand-in for uniffi's macros: no scaffolding is generated; an exported function or method is
//! made `pub` so that a harness calls it the way the generated scaffolding does.
use proc_macro::TokenStream;
use quote::quote;

#[proc_macro_derive(Record, attributes(uniffi))]
pub fn record(_: TokenStream) -> TokenStream { TokenStream::new() }
#[proc_macro_derive(Object, attributes(uniffi))]
pub fn object(i: TokenStream) -> TokenStream {
    // an object's type may be private: a wrapper in the same module gives the harness access
    let Ok(d) = syn::parse::<syn::DeriveInput>(i) else { return TokenStream::new() };
    let f = format!("{}/src/object_{}.rs", env!("CARGO_MANIFEST_DIR"), d.ident);
    if !std::path::Path::new(&f).exists() {
        return TokenStream::new();
    }
    quote!(include!(#f);).into()
}
#[proc_macro_derive(Enum, attributes(uniffi))]
pub fn enum_(_: TokenStream) -> TokenStream { TokenStream::new() }
#[proc_macro_derive(Error, attributes(uniffi))]
pub fn error(_: TokenStream) -> TokenStream { TokenStream::new() }
#[proc_macro]
pub fn setup_scaffolding(_: TokenStream) -> TokenStream { TokenStream::new() }
#[proc_macro_attribute]
pub fn constructor(_a: TokenStream, i: TokenStream) -> TokenStream { i }
#[proc_macro_attribute]
pub fn method(_a: TokenStream, i: TokenStream) -> TokenStream { i }

#[proc_macro_attribute]
pub fn export(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let public: syn::Visibility = syn::parse_quote!(pub);
    let item: syn::Item = match syn::parse(item) {
        Ok(i) => i,
        Err(e) => return e.to_compile_error().into(),
    };
    match item {
        syn::Item::Fn(mut f) => {
            f.vis = public;
            quote!(#[allow(private_interfaces, dead_code)] #f).into()
        }
        syn::Item::Impl(mut i) => {
            for it in &mut i.items {
                if let syn::ImplItem::Fn(f) = it {
                    if i.trait_.is_none() {
                        f.vis = public.clone();
                    }
                }
            }
            quote!(#[allow(private_interfaces, dead_code)] #i).into()
        }
        o => quote!(#o).into(),
    }
}
