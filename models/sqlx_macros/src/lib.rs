use proc_macro::{Delimiter, TokenStream, TokenTree};
/// `FromRow` of a struct with named fields.
#[proc_macro_derive(FromRow, attributes(sqlx))]
pub fn from_row(i: TokenStream) -> TokenStream {
    let mut name = None;
    let mut fields = Vec::new();
    let mut it = i.into_iter().peekable();
    while let Some(t) = it.next() {
        match t {
            TokenTree::Ident(id) if id.to_string() == "struct" => name = it.next().map(|t| t.to_string()),
            TokenTree::Group(g) if g.delimiter() == Delimiter::Brace && name.is_some() => {
                let mut depth = 0i32;
                let mut prev: Option<String> = None;
                let mut in_ty = false;
                for t in g.stream() {
                    match &t {
                        TokenTree::Punct(p) => match p.as_char() {
                            '<' => depth += 1,
                            '>' => depth -= 1,
                            ',' if depth == 0 => in_ty = false,
                            ':' if !in_ty => { in_ty = true; if let Some(p) = prev.take() { fields.push(p); } }
                            _ => {}
                        },
                        TokenTree::Ident(id) if !in_ty => prev = Some(id.to_string()),
                        _ => {}
                    }
                }
            }
            _ => {}
        }
    }
    let name = name.expect("struct");
    let body: String = fields.iter().map(|f| format!("{f}: row.try_get(\"{f}\")?,")).collect();
    format!("impl<'r> sqlx::FromRow<'r, sqlx::sqlite::SqliteRow> for {name} {{ fn from_row(row: &'r sqlx::sqlite::SqliteRow) -> ::core::result::Result<Self, sqlx::Error> {{ use sqlx::Row as _; ::core::result::Result::Ok({name} {{ {body} }}) }} }}").parse().unwrap()
}
