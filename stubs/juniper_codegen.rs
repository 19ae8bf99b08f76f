// Type-level stand-in for `juniper_codegen` 0.13: derives that produce nothing and
// the `object` attribute, which leaves the impl as written (minus inert attributes).
extern crate proc_macro;
use proc_macro::{Delimiter, Group, TokenStream, TokenTree};
fn strip(ts: TokenStream) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out: Vec<TokenTree> = vec![];
    let mut i = 0;
    while i < v.len() {
        if let TokenTree::Punct(p) = &v[i] {
            if p.as_char() == '#' && i + 1 < v.len() {
                if let TokenTree::Group(g) = &v[i + 1] {
                    if g.delimiter() == Delimiter::Bracket && g.stream().to_string().starts_with("graphql") {
                        i += 2;
                        continue;
                    }
                }
            }
        }
        match &v[i] {
            TokenTree::Group(g) => {
                let mut n = Group::new(g.delimiter(), strip(g.stream()));
                n.set_span(g.span());
                out.push(TokenTree::Group(n));
            }
            t => out.push(t.clone()),
        }
        i += 1;
    }
    out.into_iter().collect()
}
#[proc_macro_attribute]
pub fn object(_a: TokenStream, item: TokenStream) -> TokenStream { strip(item) }
#[proc_macro_derive(GraphQLObject, attributes(graphql))] pub fn d1(_i: TokenStream) -> TokenStream { TokenStream::new() }
#[proc_macro_derive(GraphQLScalarValue, attributes(graphql))] pub fn d2(_i: TokenStream) -> TokenStream { TokenStream::new() }
#[proc_macro_derive(GraphQLEnum, attributes(graphql))] pub fn d3(_i: TokenStream) -> TokenStream { TokenStream::new() }
#[proc_macro_derive(GraphQLInputObject, attributes(graphql))] pub fn d4(_i: TokenStream) -> TokenStream { TokenStream::new() }
