//! Stand-in for the `derive_builder` 0.12 crate, which is not available in this sandbox.
//! It covers the subset of the real macro's behaviour hyperbee can reach: patterns `mutable`
//! (the default), `owned` and `immutable`; `build_fn(validate = "..", name = "..", skip)`;
//! field attributes `default`, `default = ".."`, `setter(custom|skip|into|strip_option)`;
//! `derive(..)` on the builder; and the `<T>BuilderError` type.
use proc_macro::TokenStream;
use proc_macro2::TokenStream as TS;
use quote::{format_ident, quote};
use syn::{parse_macro_input, punctuated::Punctuated, Data, DeriveInput, Expr, Fields, Lit, Meta, Token};

fn lit_str(e: &Expr) -> Option<String> {
    match e {
        Expr::Lit(l) => match &l.lit {
            Lit::Str(s) => Some(s.value()),
            Lit::Bool(b) => Some(b.value.to_string()),
            _ => None,
        },
        _ => None,
    }
}

#[derive(Default, Clone)]
struct Opts {
    pattern: Option<String>,
    derives: Vec<syn::Path>,
    validate: Option<String>,
    default: Option<Option<String>>,
    custom: bool,
    into: bool,
    strip_option: bool,
    private: bool,
}

fn parse_metas(metas: &Punctuated<Meta, Token![,]>, o: &mut Opts) {
    for m in metas {
        let name = m.path().get_ident().map(|i| i.to_string()).unwrap_or_default();
        match (name.as_str(), m) {
            ("pattern", Meta::NameValue(nv)) => o.pattern = lit_str(&nv.value),
            ("derive", Meta::List(l)) => {
                let ps = l.parse_args_with(Punctuated::<syn::Path, Token![,]>::parse_terminated).unwrap();
                o.derives.extend(ps);
            }
            ("build_fn", Meta::List(l)) => {
                let ms = l.parse_args_with(Punctuated::<Meta, Token![,]>::parse_terminated).unwrap();
                for m in ms {
                    if m.path().is_ident("validate") {
                        if let Meta::NameValue(nv) = &m {
                            o.validate = lit_str(&nv.value);
                        }
                    }
                    if m.path().is_ident("private") {
                        o.private = true;
                    }
                }
            }
            ("default", Meta::Path(_)) => o.default = Some(None),
            ("default", Meta::NameValue(nv)) => o.default = Some(lit_str(&nv.value)),
            ("setter", Meta::List(l)) => {
                let ms = l.parse_args_with(Punctuated::<Meta, Token![,]>::parse_terminated).unwrap();
                for m in ms {
                    if m.path().is_ident("custom") || m.path().is_ident("skip") {
                        o.custom = true;
                    }
                    if m.path().is_ident("into") {
                        o.into = true;
                    }
                    if m.path().is_ident("strip_option") {
                        o.strip_option = true;
                    }
                }
            }
            _ => {}
        }
    }
}

fn opts(attrs: &[syn::Attribute], base: &Opts) -> Opts {
    let mut o = base.clone();
    for a in attrs {
        if a.path().is_ident("builder") {
            if let Meta::List(l) = &a.meta {
                let ms = l.parse_args_with(Punctuated::<Meta, Token![,]>::parse_terminated).unwrap();
                parse_metas(&ms, &mut o);
            }
        }
    }
    o
}

fn option_inner(t: &syn::Type) -> Option<syn::Type> {
    if let syn::Type::Path(p) = t {
        let s = p.path.segments.last()?;
        if s.ident == "Option" {
            if let syn::PathArguments::AngleBracketed(a) = &s.arguments {
                if let Some(syn::GenericArgument::Type(t)) = a.args.first() {
                    return Some(t.clone());
                }
            }
        }
    }
    None
}

#[proc_macro_derive(Builder, attributes(builder))]
pub fn derive_builder(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let name = &input.ident;
    let vis = &input.vis;
    let bname = format_ident!("{}Builder", name);
    let ename = format_ident!("{}BuilderError", name);
    let o = opts(&input.attrs, &Opts::default());
    let pattern = o.pattern.clone().unwrap_or_else(|| "mutable".into());
    let owned = pattern == "owned";
    let fields = match &input.data {
        Data::Struct(s) => match &s.fields {
            Fields::Named(n) => n.named.clone(),
            _ => panic!("Builder: only named structs"),
        },
        _ => panic!("Builder: only structs"),
    };
    let (ig, tg, wc) = input.generics.split_for_impl();
    let mut bfields: Vec<TS> = vec![];
    let mut setters: Vec<TS> = vec![];
    let mut inits: Vec<TS> = vec![];
    let base = Opts { into: o.into, strip_option: o.strip_option, ..Default::default() };
    for f in &fields {
        let fname = f.ident.as_ref().unwrap();
        let ty = &f.ty;
        let fo = opts(&f.attrs, &base);
        bfields.push(quote!(#fname: ::core::option::Option<#ty>));
        let strip = if fo.strip_option { option_inner(ty) } else { None };
        let set_ty = strip.clone().unwrap_or_else(|| ty.clone());
        if !fo.custom {
            let (gen, argty, conv) = if fo.into {
                (quote!(<VALUE: ::core::convert::Into<#set_ty>>), quote!(VALUE), quote!(value.into()))
            } else {
                (quote!(), quote!(#set_ty), quote!(value))
            };
            let conv = if strip.is_some() { quote!(::core::option::Option::Some(#conv)) } else { conv };
            setters.push(match pattern.as_str() {
                "owned" => quote!(
                    #[allow(unused_mut)]
                    pub fn #fname #gen(self, value: #argty) -> Self {
                        let mut new = self;
                        new.#fname = ::core::option::Option::Some(#conv);
                        new
                    }),
                "immutable" => quote!(
                    pub fn #fname #gen(&self, value: #argty) -> Self {
                        let mut new = ::core::clone::Clone::clone(self);
                        new.#fname = ::core::option::Option::Some(#conv);
                        new
                    }),
                _ => quote!(
                    pub fn #fname #gen(&mut self, value: #argty) -> &mut Self {
                        self.#fname = ::core::option::Option::Some(#conv);
                        self
                    }),
            });
        }
        let fstr = fname.to_string();
        let dflt = match &fo.default {
            Some(None) => quote!(::core::default::Default::default()),
            Some(Some(s)) => {
                let e: TS = s.parse().unwrap();
                quote!({ #e })
            }
            None => quote!(return ::core::result::Result::Err(#ename::UninitializedField(#fstr))),
        };
        inits.push(if owned {
            quote!(#fname: match self.#fname { Some(value) => value, None => #dflt })
        } else {
            quote!(#fname: match self.#fname { Some(ref value) => ::core::clone::Clone::clone(value), None => #dflt })
        });
    }
    let derives = &o.derives;
    let clone_derive = if owned { quote!() } else { quote!(#[derive(Clone)]) };
    let selfty = if owned { quote!(self) } else { quote!(&self) };
    let validate = match &o.validate {
        Some(v) => {
            let p: syn::Path = syn::parse_str(v).unwrap();
            let arg = if owned { quote!(&self) } else { quote!(self) };
            quote!(#p(#arg)?;)
        }
        None => quote!(),
    };
    let bvis = if o.private { quote!() } else { quote!(pub) };
    let out = quote! {
        #[derive(Default #(, #derives)*)]
        #clone_derive
        #[allow(dead_code)]
        #vis struct #bname #ig #wc { #(#bfields,)* }
        #[allow(dead_code)]
        impl #ig #bname #tg #wc {
            #(#setters)*
            #bvis fn build(#selfty) -> ::core::result::Result<#name #tg, #ename> {
                #validate
                ::core::result::Result::Ok(#name { #(#inits,)* })
            }
        }
        #[derive(Debug)]
        #[non_exhaustive]
        #vis enum #ename {
            /// Uninitialized field
            UninitializedField(&'static str),
            /// Custom validation error
            ValidationError(::std::string::String),
        }
        impl ::core::convert::From<::std::string::String> for #ename {
            fn from(s: ::std::string::String) -> Self { Self::ValidationError(s) }
        }
        impl ::core::fmt::Display for #ename {
            fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result {
                match self {
                    Self::UninitializedField(field) => write!(f, "`{}` must be initialized", field),
                    Self::ValidationError(error) => write!(f, "{}", error),
                }
            }
        }
        impl ::std::error::Error for #ename {}
    };
    out.into()
}
