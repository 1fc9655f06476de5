use quote::quote;
use syn::{parse_macro_input, Data, DeriveInput};
#[proc_macro_derive(Sequence)]
pub fn derive(input: proc_macro::TokenStream) -> proc_macro::TokenStream {
    let inp = parse_macro_input!(input as DeriveInput);
    let name = &inp.ident;
    let Data::Enum(e) = &inp.data else { panic!("enums only") };
    let vs: Vec<_> = e.variants.iter().map(|v| v.ident.clone()).collect();
    let n = vs.len();
    let nexts = (0..n).map(|i| {
        let v = &vs[i];
        if i + 1 < n { let w = &vs[i + 1]; quote!(#name::#v => Some(#name::#w)) } else { quote!(#name::#v => None) }
    });
    let prevs = (0..n).map(|i| {
        let v = &vs[i];
        if i > 0 { let w = &vs[i - 1]; quote!(#name::#v => Some(#name::#w)) } else { quote!(#name::#v => None) }
    });
    let (f, l) = (&vs[0], &vs[n - 1]);
    quote! {
        impl ::enum_iterator::Sequence for #name {
            const CARDINALITY: usize = #n;
            fn next(&self) -> Option<Self> { match self { #(#nexts),* } }
            fn previous(&self) -> Option<Self> { match self { #(#prevs),* } }
            fn first() -> Option<Self> { Some(#name::#f) }
            fn last() -> Option<Self> { Some(#name::#l) }
        }
    }.into()
}
