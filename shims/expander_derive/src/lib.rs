//! Stand-in for Expander's `serdes_derive`: field-by-field ExpSerde in declaration order.
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{parse_macro_input, Data, DeriveInput, Fields};

#[proc_macro_derive(ExpSerde, attributes(skip_serde))]
pub fn derive_exp_serde(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let name = &input.ident;
    let (ig, tg, wc) = input.generics.split_for_impl();
    let (ser, de) = match &input.data {
        Data::Struct(s) => match &s.fields {
            Fields::Named(f) => {
                let names: Vec<_> = f.named.iter().map(|x| x.ident.clone().unwrap()).collect();
                (
                    quote! { #( serdes::ExpSerde::serialize_into(&self.#names, &mut writer)?; )* Ok(()) },
                    quote! { Ok(Self { #( #names: serdes::ExpSerde::deserialize_from(&mut reader)?, )* }) },
                )
            }
            Fields::Unnamed(f) => {
                let idx: Vec<_> = (0..f.unnamed.len()).map(syn::Index::from).collect();
                (
                    quote! { #( serdes::ExpSerde::serialize_into(&self.#idx, &mut writer)?; )* Ok(()) },
                    quote! { Ok(Self { #( #idx: serdes::ExpSerde::deserialize_from(&mut reader)?, )* }) },
                )
            }
            Fields::Unit => (quote! { Ok(()) }, quote! { Ok(Self) }),
        },
        Data::Enum(e) => {
            let mut ser_arms = vec![];
            let mut de_arms = vec![];
            for (i, v) in e.variants.iter().enumerate() {
                let vn = &v.ident;
                let tag = i as u8;
                match &v.fields {
                    Fields::Unit => {
                        ser_arms.push(quote! { #name::#vn => { serdes::ExpSerde::serialize_into(&#tag, &mut writer)?; } });
                        de_arms.push(quote! { #tag => Ok(#name::#vn), });
                    }
                    Fields::Unnamed(f) => {
                        let bs: Vec<_> = (0..f.unnamed.len()).map(|k| format_ident!("x{}", k)).collect();
                        ser_arms.push(quote! { #name::#vn( #(#bs),* ) => { serdes::ExpSerde::serialize_into(&#tag, &mut writer)?; #( serdes::ExpSerde::serialize_into(#bs, &mut writer)?; )* } });
                        let des = bs.iter().map(|_| quote! { serdes::ExpSerde::deserialize_from(&mut reader)? });
                        de_arms.push(quote! { #tag => Ok(#name::#vn( #(#des),* )), });
                    }
                    Fields::Named(f) => {
                        let ns: Vec<_> = f.named.iter().map(|x| x.ident.clone().unwrap()).collect();
                        ser_arms.push(quote! { #name::#vn { #(#ns),* } => { serdes::ExpSerde::serialize_into(&#tag, &mut writer)?; #( serdes::ExpSerde::serialize_into(#ns, &mut writer)?; )* } });
                        de_arms.push(quote! { #tag => Ok(#name::#vn { #( #ns: serdes::ExpSerde::deserialize_from(&mut reader)? ),* }), });
                    }
                }
            }
            (
                quote! { match self { #(#ser_arms)* } Ok(()) },
                quote! { let tag: u8 = serdes::ExpSerde::deserialize_from(&mut reader)?; match tag { #(#de_arms)* _ => Err(serdes::SerdeError::DeserializeError) } },
            )
        }
        Data::Union(_) => panic!("unions not supported"),
    };
    quote! {
        impl #ig serdes::ExpSerde for #name #tg #wc {
            fn serialize_into<W: std::io::Write>(&self, mut writer: W) -> serdes::SerdeResult<()> { #ser }
            fn deserialize_from<R: std::io::Read>(mut reader: R) -> serdes::SerdeResult<Self> { #de }
        }
    }
    .into()
}
