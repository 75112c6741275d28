//! `#[wasm_bindgen]` and `#[derive(Tsify)]` outside a browser: items stay what
//! they are, foreign types become handles of `js::Channel` objects.
use proc_macro::{Delimiter, TokenStream, TokenTree};

#[proc_macro_derive(Tsify, attributes(tsify))]
pub fn tsify(_: TokenStream) -> TokenStream { TokenStream::new() }

#[proc_macro_attribute]
pub fn wasm_bindgen(_: TokenStream, item: TokenStream) -> TokenStream {
    let foreign = item.clone().into_iter().any(|t| matches!(&t, TokenTree::Ident(i) if i.to_string() == "extern"));
    let body = item.clone().into_iter().find_map(|t| match t { TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => Some(g.stream()), _ => None });
    let (true, Some(body)) = (foreign, body) else { return item };
    let t: Vec<TokenTree> = body.into_iter().collect();
    let (mut types, mut out) = (String::new(), String::new());
    let (mut i, mut name) = (0, String::new());
    while i < t.len() {
        match t[i].to_string().as_str() {
            "type" => { name = t[i + 1].to_string(); types += &format!("#[derive(Clone)] pub struct {name}(pub std::rc::Rc<dyn ::wasm_bindgen::Channel>);"); i += 2 }
            "fn" => {
                let f = t[i + 1].to_string();
                let TokenTree::Group(args) = &t[i + 2] else { panic!("arguments") };
                let mut parts = vec![vec![]];
                for a in args.stream() { if a.to_string() == "," { parts.push(vec![]) } else { parts.last_mut().unwrap().push(a) } }
                let parts: Vec<String> = parts.into_iter().skip(1).filter(|p| !p.is_empty()).map(|p| p.into_iter().collect::<TokenStream>().to_string()).collect();
                let names: Vec<String> = parts.iter().map(|p| p.split(':').next().unwrap().trim().to_string()).collect();
                let mut ret = String::new();
                i += 3;
                while t[i].to_string() != ";" { ret += &t[i].to_string(); if !matches!(&t[i], TokenTree::Punct(p) if p.spacing() == proc_macro::Spacing::Joint) { ret.push(' ') } i += 1 }
                out += &format!("pub fn {f}(&self, {}) {ret} {{ self.0.{f}({}) }}", parts.join(","), names.join(","));
            }
            _ => {}
        }
        i += 1;
    }
    format!("{types} impl {name} {{ {out} }}").parse().unwrap()
}
