//! Stand-in for the `VariantCount` derive: `Self::VARIANT_COUNT` for a plain enum.
use proc_macro::{Delimiter, TokenStream, TokenTree};
#[proc_macro_derive(VariantCount)]
pub fn variant_count(i: TokenStream) -> TokenStream {
	let (mut name, mut n, mut last) = (String::new(), 0usize, String::new());
	for t in i {
		match t {
			TokenTree::Ident(x) => {
				if last == "enum" {
					name = x.to_string();
				}
				last = x.to_string();
			},
			TokenTree::Group(g) if g.delimiter() == Delimiter::Brace && !name.is_empty() => {
				// variants are separated by commas at this level
				let mut some = false;
				for t in g.stream() {
					match t {
						TokenTree::Punct(p) if p.as_char() == ',' => {
							n += some as usize;
							some = false;
						},
						TokenTree::Ident(_) => some = true,
						_ => {},
					}
				}
				n += some as usize;
			},
			_ => {},
		}
	}
	format!("impl {name} {{ pub const VARIANT_COUNT: usize = {n}; }}").parse().unwrap()
}
