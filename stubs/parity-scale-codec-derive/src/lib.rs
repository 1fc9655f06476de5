//! Derive macros of the SCALE codec stand-in: Encode and Decode for structs and enums,
//! with #[codec(index = N)], #[codec(compact)] and #[codec(skip)].
use proc_macro2::TokenStream;
use quote::{format_ident, quote};
use syn::{parse_macro_input, parse_quote, Data, DeriveInput, Fields, Generics, Type};

struct Attrs {
    index: Option<syn::Expr>,
    compact: bool,
    skip: bool,
}

fn attrs(a: &[syn::Attribute]) -> Attrs {
    let mut r = Attrs { index: None, compact: false, skip: false };
    for at in a.iter().filter(|a| a.path().is_ident("codec")) {
        at.parse_nested_meta(|m| {
            if m.path.is_ident("index") {
                r.index = Some(m.value()?.parse()?);
            } else if m.path.is_ident("compact") {
                r.compact = true;
            } else if m.path.is_ident("skip") {
                r.skip = true;
            } else {
                return Err(m.error("codec stand-in: unsupported attribute"));
            }
            Ok(())
        })
        .expect("codec attribute");
    }
    r
}

/// Does the type mention one of the type parameters?
fn mentions(ty: &Type, params: &[syn::Ident]) -> bool {
    fn ts(t: proc_macro2::TokenStream, params: &[syn::Ident]) -> bool {
        t.into_iter().any(|tt| match tt {
            proc_macro2::TokenTree::Ident(i) => params.iter().any(|p| *p == i),
            proc_macro2::TokenTree::Group(g) => ts(g.stream(), params),
            _ => false,
        })
    }
    ts(quote!(#ty), params)
}

fn bounds(generics: &Generics, data: &Data, tr: TokenStream, name: &syn::Ident) -> Generics {
    let mut g = generics.clone();
    let params: Vec<syn::Ident> = generics.type_params().map(|p| p.ident.clone()).collect();
    if params.is_empty() {
        return g;
    }
    let fields: Vec<&syn::Field> = match data {
        Data::Struct(s) => s.fields.iter().collect(),
        Data::Enum(e) => e.variants.iter().flat_map(|v| v.fields.iter()).collect(),
        Data::Union(_) => vec![],
    };
    let wh = g.make_where_clause();
    for f in fields {
        let ty = &f.ty;
        let at = attrs(&f.attrs);
        if at.skip || !mentions(ty, &params) || mentions(ty, &[name.clone()]) {
            continue;
        }
        if at.compact {
            wh.predicates.push(parse_quote!(#ty: ::parity_scale_codec::HasCompact));
        } else {
            wh.predicates.push(parse_quote!(#ty: #tr));
        }
    }
    g
}

fn enc_fields(fields: &Fields, access: impl Fn(usize, &syn::Field) -> TokenStream) -> TokenStream {
    let it = fields.iter().enumerate().filter_map(|(i, f)| {
        let at = attrs(&f.attrs);
        if at.skip {
            return None;
        }
        let a = access(i, f);
        Some(if at.compact {
            quote!(::parity_scale_codec::__private::encode_compact(#a, __dest);)
        } else {
            quote!(::parity_scale_codec::Encode::encode_to(#a, __dest);)
        })
    });
    quote!(#(#it)*)
}

fn dec_fields(path: TokenStream, fields: &Fields) -> TokenStream {
    let one = |f: &syn::Field| {
        let ty = &f.ty;
        let at = attrs(&f.attrs);
        if at.skip {
            quote!(::core::default::Default::default())
        } else if at.compact {
            quote!(::parity_scale_codec::__private::decode_compact::<#ty, __I>(__input)?)
        } else {
            quote!(<#ty as ::parity_scale_codec::Decode>::decode(__input)?)
        }
    };
    match fields {
        Fields::Unit => quote!(#path),
        Fields::Unnamed(_) => {
            let v = fields.iter().map(one);
            quote!(#path(#(#v),*))
        }
        Fields::Named(_) => {
            let v = fields.iter().map(|f| {
                let n = f.ident.as_ref().unwrap();
                let e = one(f);
                quote!(#n: #e)
            });
            quote!(#path { #(#v),* })
        }
    }
}

fn variant_index(v: &syn::Variant, i: usize) -> TokenStream {
    if let Some(e) = attrs(&v.attrs).index {
        return quote!((#e) as u8);
    }
    if let Some((_, e)) = &v.discriminant {
        return quote!((#e) as u8);
    }
    let i = i as u8;
    quote!(#i)
}

#[proc_macro_derive(Encode, attributes(codec))]
pub fn derive_encode(input: proc_macro::TokenStream) -> proc_macro::TokenStream {
    let inp = parse_macro_input!(input as DeriveInput);
    let name = &inp.ident;
    let g = bounds(&inp.generics, &inp.data, quote!(::parity_scale_codec::Encode), name);
    let (ig, tg, wc) = g.split_for_impl();
    let body = match &inp.data {
        Data::Struct(s) => enc_fields(&s.fields, |i, f| match &f.ident {
            Some(n) => quote!(&self.#n),
            None => {
                let i = syn::Index::from(i);
                quote!(&self.#i)
            }
        }),
        Data::Enum(e) => {
            let arms = e.variants.iter().enumerate().filter(|(_, v)| !attrs(&v.attrs).skip).map(|(vi, v)| {
                let vn = &v.ident;
                let idx = variant_index(v, vi);
                let names: Vec<_> = (0..v.fields.len()).map(|i| format_ident!("__f{}", i)).collect();
                let pat = match &v.fields {
                    Fields::Unit => quote!(#name::#vn),
                    Fields::Unnamed(_) => quote!(#name::#vn(#(#names),*)),
                    Fields::Named(fs) => {
                        let ids = fs.named.iter().map(|f| f.ident.as_ref().unwrap());
                        quote!(#name::#vn { #(#ids: #names),* })
                    }
                };
                let enc = enc_fields(&v.fields, |i, _| {
                    let n = &names[i];
                    quote!(#n)
                });
                quote!(#pat => { __dest.push_byte(#idx); #enc })
            });
            if e.variants.is_empty() {
                quote!()
            } else {
                quote!(match self { #(#arms)* #[allow(unreachable_patterns)] _ => {} })
            }
        }
        Data::Union(_) => panic!("union"),
    };
    quote! {
        #[allow(deprecated, unused_variables, unused_mut)]
        const _: () = {
            #[automatically_derived]
            impl #ig ::parity_scale_codec::Encode for #name #tg #wc {
                fn encode_to<__W: ::parity_scale_codec::Output + ?::core::marker::Sized>(&self, __dest: &mut __W) { #body }
            }
            #[automatically_derived]
            impl #ig ::parity_scale_codec::EncodeLike for #name #tg #wc {}
        };
    }
    .into()
}

#[proc_macro_derive(Decode, attributes(codec))]
pub fn derive_decode(input: proc_macro::TokenStream) -> proc_macro::TokenStream {
    let inp = parse_macro_input!(input as DeriveInput);
    let name = &inp.ident;
    let g = bounds(&inp.generics, &inp.data, quote!(::parity_scale_codec::Decode), name);
    let (ig, tg, wc) = g.split_for_impl();
    let body = match &inp.data {
        Data::Struct(s) => {
            let d = dec_fields(quote!(#name), &s.fields);
            quote!(::core::result::Result::Ok(#d))
        }
        Data::Enum(e) => {
            let mut idx_consts = vec![];
            let arms: Vec<_> = e
                .variants
                .iter()
                .enumerate()
                .filter(|(_, v)| !attrs(&v.attrs).skip)
                .map(|(vi, v)| {
                    let vn = &v.ident;
                    let idx = variant_index(v, vi);
                    idx_consts.push(idx.clone());
                    let d = dec_fields(quote!(#name::#vn), &v.fields);
                    quote!(__x if __x == #idx => ::core::result::Result::Ok(#d),)
                })
                .collect();
            let msg = format!("Could not decode `{name}`, variant doesn't exist");
            quote! {
                match ::parity_scale_codec::Input::read_byte(__input)? {
                    #(#arms)*
                    _ => ::core::result::Result::Err(<_ as ::core::convert::Into<::parity_scale_codec::Error>>::into(#msg)),
                }
            }
        }
        Data::Union(_) => panic!("union"),
    };
    quote! {
        #[allow(deprecated, unused_variables)]
        const _: () = {
            #[automatically_derived]
            impl #ig ::parity_scale_codec::Decode for #name #tg #wc {
                fn decode<__I: ::parity_scale_codec::Input>(__input: &mut __I) -> ::core::result::Result<Self, ::parity_scale_codec::Error> { #body }
            }
        };
    }
    .into()
}

#[proc_macro_derive(CompactAs, attributes(codec))]
pub fn derive_compact_as(_input: proc_macro::TokenStream) -> proc_macro::TokenStream {
    proc_macro::TokenStream::new()
}
