//! The crate's entry points, one way to call them for both languages.

use crate::lower;
use crate::model::*;
use crate::refprint::Sty;
use graphql_parser::query::Text;
use graphql_parser::{parse_query, parse_schema, query, schema, Style};

#[derive(Clone, Debug, PartialEq)]
pub enum Any<'a, T: Text<'a>> {
    Q(query::Document<'a, T>),
    S(schema::Document<'a, T>),
}

pub fn style(s: Sty) -> Style {
    let mut x = Style::default();
    x.indent(s.indent).multiline_arguments(s.multi);
    x
}

pub fn parse<'a, T: Text<'a>>(lang: Lang, text: &'a str) -> Result<Any<'a, T>, String> {
    match lang {
        Lang::Query => parse_query::<T>(text).map(Any::Q).map_err(|e| e.to_string()),
        Lang::Schema => parse_schema::<T>(text).map(Any::S).map_err(|e| e.to_string()),
    }
}
/// With borrowed strings.
pub fn parse_ref(lang: Lang, text: &str) -> Result<Any<'_, &str>, String> {
    parse::<&str>(lang, text)
}
/// Straight to the reference tree.
pub fn parse_doc(lang: Lang, text: &str) -> Result<Doc, String> {
    parse_ref(lang, text).map(|d| d.lower())
}

impl<'a, T: Text<'a>> Any<'a, T> {
    pub fn lower(&self) -> Doc {
        match self {
            Any::Q(d) => lower::qdoc(d),
            Any::S(d) => lower::sdoc(d),
        }
    }
    pub fn format(&self, s: Sty) -> String {
        match self {
            Any::Q(d) => d.format(&style(s)),
            Any::S(d) => d.format(&style(s)),
        }
    }
    /// with the style nobody has touched
    pub fn format_default(&self) -> String {
        match self {
            Any::Q(d) => d.format(&Style::default()),
            Any::S(d) => d.format(&Style::default()),
        }
    }
    pub fn display(&self) -> String {
        match self {
            Any::Q(d) => d.to_string(),
            Any::S(d) => d.to_string(),
        }
    }
}

/// Where two trees part, in words.
pub fn diff(a: &Doc, b: &Doc) -> String {
    let x = format!("{:#?}", a);
    let y = format!("{:#?}", b);
    let xs: Vec<&str> = x.lines().collect();
    let ys: Vec<&str> = y.lines().collect();
    let i = xs.iter().zip(&ys).take_while(|(p, q)| p == q).count();
    let part = |v: &[&str]| v[i.saturating_sub(6).min(v.len())..(i + 6).min(v.len())].iter().map(|l| l.trim()).collect::<Vec<_>>().join(" ");
    format!("got ...{}...\n  want ...{}...", part(&xs), part(&ys))
}
