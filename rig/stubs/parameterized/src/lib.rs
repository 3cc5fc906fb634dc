//! Offline stand-in for parameterized 2.0.0 with one parameter: used only to run /repo's own tests
//! over the other stand-ins (rig/selftest.sh).
use proc_macro::{Delimiter, TokenStream, TokenTree};
#[proc_macro_attribute]
pub fn parameterized(attr: TokenStream, item: TokenStream) -> TokenStream {
  let mut it = attr.into_iter();
  it.next();
  it.next();
  let Some(TokenTree::Group(g)) = it.next() else { panic!("one parameter only") };
  assert_eq!(g.delimiter(), Delimiter::Brace);
  let mut args = vec![TokenStream::new()];
  for t in g.stream() {
    match &t {
      TokenTree::Punct(p) if p.as_char() == ',' => args.push(TokenStream::new()),
      _ => args.last_mut().unwrap().extend([t]),
    }
  }
  let name = item.clone().into_iter().skip_while(|t| t.to_string() != "fn").nth(1).unwrap().to_string();
  let mut out = item.to_string();
  out += &format!("\nmod {name} {{ use super::*;\n");
  for (i, a) in args.iter().filter(|a| !a.is_empty()).enumerate() {
    out += &format!("#[test] fn case_{i}() {{ super::{name}({a}); }}\n");
  }
  out += "}\n";
  out.parse().unwrap()
}
