//! Stands in for the derive macro of num_enum, which is not available offline:
//! TryFrom<u32> for an enum whose variants all have explicit values.
use proc_macro::{TokenStream, TokenTree};

#[proc_macro_derive(TryFromPrimitive)]
pub fn derive(input: TokenStream) -> TokenStream {
    let mut name = String::new();
    let mut arms = String::new();
    let mut it = input.into_iter();
    while let Some(t) = it.next() {
        match t {
            TokenTree::Ident(i) if i.to_string() == "enum" => name = it.next().unwrap().to_string(),
            TokenTree::Group(g) if !name.is_empty() => {
                let ts: Vec<String> = g.stream().into_iter().map(|t| t.to_string()).collect();
                for v in ts.split(|t| t == ",").filter(|v| !v.is_empty()) {
                    let i = v.iter().position(|t| t == "=").expect("explicit value");
                    arms += &format!("{} => ::core::result::Result::Ok({}::{}),", v[i + 1..].concat(), name, v[i - 1]);
                }
                break;
            }
            _ => {}
        }
    }
    format!("impl ::core::convert::TryFrom<u32> for {name} {{ type Error = u32;
        fn try_from(n: u32) -> ::core::result::Result<Self, u32> {{ match n {{ {arms} _ => ::core::result::Result::Err(n) }} }} }}").parse().unwrap()
}
