//! Stand-in for variant_count: the number of variants as an associated constant.
use proc_macro::TokenStream;
use quote::quote;

#[proc_macro_derive(VariantCount)]
pub fn derive(input: TokenStream) -> TokenStream {
	let i = syn::parse_macro_input!(input as syn::DeriveInput);
	let n = match &i.data {
		syn::Data::Enum(e) => e.variants.len(),
		_ => 0,
	};
	let name = &i.ident;
	let (a, b, c) = i.generics.split_for_impl();
	quote! { impl #a #name #b #c { pub const VARIANT_COUNT: usize = #n; } }.into()
}
