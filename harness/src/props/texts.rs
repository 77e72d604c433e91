//! C15, C16, C17, C19.

use super::*;
use crate::lower;
use crate::mutate;
use graphql_parser::minify_query;
use graphql_parser::query::{self, consume_definition, Text};
use graphql_parser::schema::{self, DirectiveLocation};
use std::borrow::{Borrow, Cow};
use std::str::FromStr;

// ---- C15 ----

fn c15_gen(g: &mut Gen, l: &mut Tape) -> Case {
    let text = match l.weighted(&[6, 2, 1]) {
        0 => {
            let lang = g.lang();
            doc_text(lang, g, l, Layout::FreeCr).1
        }
        1 => {
            let lang = g.lang();
            g.budget = g.budget.min(60);
            mutate::near_text(lang, g, l).0
        }
        _ => mutate::any_text(g, l).0,
    };
    Case::new().with("text", text)
}
fn c15_check(c: &Case, o: &mut Obs) -> Verdict {
    let text = c.get("text");
    let lx = lex(text);
    let lang = if refparse::parse_query(text).is_ok() {
        Some(Lang::Query)
    } else if refparse::parse_schema(text).is_ok() {
        Some(Lang::Schema)
    } else {
        None
    };
    let min = minify_query(text.to_string());
    match query::minify_query(text.to_string()) {
        Ok(x) if min.as_ref().ok() == Some(&x) => {}
        Err(_) if min.is_err() => {}
        _ => return Err("the two minify_query differ".into()),
    }
    if lx.stop == Stop::Bad {
        o.class("cannot be split");
        o.nontrivial = lx.toks.len() >= 4;
        return match min {
            Err(_) => Ok(()),
            Ok(m) => Err(format!("minified to {:?}, though no token starts at {:?}", m, lx.stop_pos)),
        };
    }
    let lang = match lang {
        Some(l) => l,
        None => {
            o.class("no document");
            return Ok(());
        }
    };
    let mut want = String::new();
    for (i, t) in lx.toks.iter().enumerate() {
        if i > 0 && t.kind != K::Punct && lx.toks[i - 1].kind != K::Punct {
            want.push(' ');
        }
        want.push_str(t.text);
    }
    let min = min.map_err(|e| format!("a document is not minified: {}", e))?;
    if min != want {
        return Err(format!("minified to {:?}\n  and not to {:?}", min, want));
    }
    match minify_query(min.clone()) {
        Ok(m) if m == min => {}
        Ok(m) => return Err(format!("minifying {:?} again gives {:?}", min, m)),
        Err(e) => return Err(format!("minified text {:?} is not minified again: {}", min, e)),
    }
    let (a, b) = (parse_doc(lang, text)?.strip(), parse_doc(lang, &min).map_err(|e| format!("minified text {:?} is refused: {}", min, e))?.strip());
    if a != b {
        return Err(format!("minified text says something else\n  {}", diff(&b, &a)));
    }
    o.class(lang.name());
    o.class_if(min.len() < text.len(), "got shorter");
    o.class_if(text.contains('#'), "number sign");
    o.nontrivial = lx.toks.len() >= 6 && min != text;
    Ok(())
}
fn c15_fixed() -> Vec<Case> {
    work::big_cases(&[Lang::Query, Lang::Schema], "text")
}
pub static C15: Prop = Prop {
    id: "C15",
    rule: "Documents of both languages in free layout, damaged documents and other texts; the minified text is compared with the reference lexer's tokens joined with the least space, minified again and parsed. Non-trivial: six tokens or more and not minimal already, or four tokens before an illegal one.",
    gen: c15_gen,
    check: c15_check,
    fixed: c15_fixed,
    quick: 900_000,
    thorough: 22_500_000,
    tapes: (500, 500),
    stack: STACK,
    cut: &["text"],
};

// ---- C16 ----

fn c16_gen(g: &mut Gen, l: &mut Tape) -> Case {
    let mut text = if l.chance(5, 6) { doc_text(Lang::Query, g, l, Layout::Free).1 } else { mutate::near_text(Lang::Query, g, l).0 };
    if l.chance(1, 2) {
        if text.rfind('#') > text.rfind('\n') {
            // what follows is not to be part of a comment
            text.push('\n');
        }
        let sep = *l.pick(&[" ", "\n", ",", "", "\t\u{feff}", "# x\r\n"]);
        text.push_str(sep);
        let tail = match l.weighted(&[3, 3, 2, 1]) {
            0 => mutate::soup(l),
            1 => mutate::chars(l),
            2 => l.pick(&["%", "\"", "\"\"\"", "\u{0}", "}", "query", "type A", "{", "é", "{{{{{{{{", "1x", ".", "fragment", "#", "\\"]).to_string(),
            _ => "[".repeat(60),
        };
        text.push_str(&tail);
    }
    Case::new().with("text", text)
}
fn c16_check(c: &Case, o: &mut Obs) -> Verdict {
    let text = c.get("text");
    let lone = lex(text).lone_cr;
    fn one<'a>(d: &query::Definition<'a, &'a str>, lone: bool) -> Doc {
        let d = Doc::Q(QDoc(vec![lower::qdef(d)]));
        if lone {
            d.strip()
        } else {
            d
        }
    }
    let mut rest = text;
    let mut defs: Vec<Doc> = Vec::new();
    loop {
        if defs.len() > text.len() {
            return Err("consuming goes on for ever".into());
        }
        match (consume_definition::<&str>(rest), refparse::consume(rest)) {
            (Ok((d, r)), Ok((want, off))) => {
                let d = one(&d, lone);
                let mut want = Doc::Q(QDoc(vec![want]));
                if lone {
                    want = want.strip();
                }
                if d != want {
                    return Err(format!("definition {} of the text differs\n  {}", defs.len(), diff(&d, &want)));
                }
                if r.as_ptr() != rest[off..].as_ptr() {
                    return Err(format!("after definition {} the rest is no part of the text", defs.len()));
                }
                if r != &rest[off..] {
                    return Err(format!("after definition {} the rest is {:?} and not {:?}", defs.len(), r, &rest[off..]));
                }
                match consume_definition::<String>(rest) {
                    Ok((d2, r2)) if r2 == r && lower::qdef(&d2) == lower::qdef(&consume_definition::<&str>(rest).unwrap().0) => {}
                    _ => return Err("consuming with owned strings differs".into()),
                }
                defs.push(d.strip());
                rest = r;
            }
            (Err(_), Err(_)) => break,
            (Ok((d, _)), Err(e)) => return Err(format!("consumed {:?} where no definition is complete ({:?})", one(&d, lone), e)),
            (Err(e), Ok(_)) => return Err(format!("the definition at {:?} is refused: {}", rest, e)),
        }
    }
    // a whole document is its definitions one by one
    match parse_doc(Lang::Query, text) {
        Ok(Doc::Q(q)) => {
            if !rest.is_empty() {
                return Err(format!("{:?} is left of a document", rest));
            }
            let whole: Vec<Doc> = q.0.into_iter().map(|d| Doc::Q(QDoc(vec![d])).strip()).collect();
            if whole != defs {
                return Err("the definitions of the document and those consumed differ".into());
            }
            o.class("whole document");
        }
        Ok(_) => unreachable!(),
        Err(_) => {
            if rest.is_empty() && !defs.is_empty() {
                return Err("every definition can be consumed, but the document is refused".into());
            }
            o.class("something left");
        }
    }
    o.class(match defs.len() {
        0 => "no definition",
        1 => "one definition",
        2..=4 => "2-4 definitions",
        _ => "more than 4 definitions",
    });
    o.nontrivial = !defs.is_empty() && (defs.len() > 1 || !rest.is_empty());
    Ok(())
}
fn c16_fixed() -> Vec<Case> {
    work::big_cases(&[Lang::Query], "text")
}
pub static C16: Prop = Prop {
    id: "C16",
    rule: "Histories of consume calls over query documents, half of them followed by arbitrary text; every definition (with positions), every remainder (by content and address) and the end are compared with the reference parser and with the whole document's parse. Non-trivial: several definitions, or one and something left.",
    gen: c16_gen,
    check: c16_check,
    fixed: c16_fixed,
    quick: 700_000,
    thorough: 17_500_000,
    tapes: (600, 400),
    stack: STACK,
    cut: &["text"],
};

// ---- C17 ----

/// A string type of the user's own.
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct Own(std::rc::Rc<str>);
impl<'a> From<&'a str> for Own {
    fn from(s: &'a str) -> Own {
        Own(s.into())
    }
}
impl AsRef<str> for Own {
    fn as_ref(&self) -> &str {
        &self.0
    }
}
impl Borrow<str> for Own {
    fn borrow(&self) -> &str {
        &self.0
    }
}
#[derive(Debug, Clone, PartialEq)]
pub struct OwnText;
impl<'a> Text<'a> for OwnText {
    type Value = Own;
}

fn c17_gen(g: &mut Gen, l: &mut Tape) -> Case {
    let lang = g.lang();
    let s = sty(&mut g.t);
    let text = if l.chance(3, 4) {
        let layout = if l.chance(1, 2) { Layout::Free } else { Layout::Plain };
        doc_text(lang, g, l, layout).1
    } else {
        mutate::near_text(lang, g, l).0
    };
    with_sty(Case::new().with("lang", lang.name()).with("text", text), s)
}

fn values<'a, T: Text<'a>>(d: &Any<'a, T>) -> Vec<(Val, Val)> {
    use query::Value;
    fn dirs<'a, T: Text<'a>>(d: &[query::Directive<'a, T>], out: &mut Vec<(Val, Val)>) {
        for d in d {
            d.arguments.iter().for_each(|a| one(&a.1, out));
        }
    }
    fn one<'a, T: Text<'a>>(v: &Value<'a, T>, out: &mut Vec<(Val, Val)>) {
        let s: Value<'static, String> = v.into_static();
        out.push((lower::val(v), lower::val(&s)));
    }
    fn sel<'a, T: Text<'a>>(s: &query::SelectionSet<'a, T>, out: &mut Vec<(Val, Val)>) {
        for i in &s.items {
            match i {
                query::Selection::Field(f) => {
                    f.arguments.iter().for_each(|a| one(&a.1, out));
                    dirs(&f.directives, out);
                    sel(&f.selection_set, out);
                }
                query::Selection::FragmentSpread(f) => dirs(&f.directives, out),
                query::Selection::InlineFragment(f) => {
                    dirs(&f.directives, out);
                    sel(&f.selection_set, out);
                }
            }
        }
    }
    let mut out = Vec::new();
    match d {
        Any::Q(d) => {
            for d in &d.definitions {
                use query::{Definition as D, OperationDefinition as O};
                match d {
                    D::Fragment(f) => sel(&f.selection_set, &mut out),
                    D::Operation(O::SelectionSet(s)) => sel(s, &mut out),
                    D::Operation(O::Query(o)) => {
                        o.variable_definitions.iter().filter_map(|v| v.default_value.as_ref()).for_each(|v| one(v, &mut out));
                        sel(&o.selection_set, &mut out);
                    }
                    D::Operation(O::Mutation(o)) => sel(&o.selection_set, &mut out),
                    D::Operation(O::Subscription(o)) => sel(&o.selection_set, &mut out),
                }
            }
        }
        Any::S(d) => {
            for d in &d.definitions {
                if let schema::Definition::TypeDefinition(schema::TypeDefinition::InputObject(i)) = d {
                    i.fields.iter().filter_map(|v| v.default_value.as_ref()).for_each(|v| one(v, &mut out));
                }
            }
        }
    }
    out
}

type Outcome = Result<(Doc, String, String), (String, String)>;
fn outcome<'a, T: Text<'a>>(lang: Lang, text: &'a str, sty: Sty) -> Result<Outcome, String> {
    let r = match lang {
        Lang::Query => graphql_parser::parse_query::<T>(text).map(Any::Q).map_err(|e| (e.to_string(), format!("{:?}", e))),
        Lang::Schema => graphql_parser::parse_schema::<T>(text).map(Any::S).map_err(|e| (e.to_string(), format!("{:?}", e))),
    };
    Ok(match r {
        Ok(d) => {
            for (v, s) in values(&d) {
                if v != s {
                    return Err(format!("the static value {:?} was made of {:?}", s, v));
                }
            }
            Ok((d.lower(), d.format(sty), d.display()))
        }
        Err(e) => Err(e),
    })
}

fn c17_check(c: &Case, o: &mut Obs) -> Verdict {
    let lang = lang_of(c);
    let text = c.get("text");
    let sty = sty_of(c);
    let first = outcome::<&str>(lang, text, sty)?;
    let others = [
        ("String", outcome::<String>(lang, text, sty)?),
        ("Cow<str>", outcome::<Cow<str>>(lang, text, sty)?),
        ("a type of one's own", outcome::<OwnText>(lang, text, sty)?),
    ];
    for (name, x) in &others {
        if *x != first {
            return Err(match (x, &first) {
                (Ok(x), Ok(f)) if x.0 != f.0 => format!("tree with {} differs\n  {}", name, diff(&x.0, &f.0)),
                (Ok(_), Ok(_)) => format!("printed text with {} differs", name),
                (x, f) => format!("with {}: {:?}\n  with &str: {:?}", name, x, f),
            });
        }
    }
    match &first {
        Ok((doc, printed, _)) => {
            // the static document outlives its source
            let mut source = text.to_string();
            let (low, show) = match lang {
                Lang::Query => {
                    let d: query::Document<'static, String> = graphql_parser::parse_query::<String>(&source).map_err(|e| e.to_string())?.into_static();
                    scrub(&mut source);
                    let d = Any::Q(d);
                    (d.lower(), d.format(sty))
                }
                Lang::Schema => {
                    let d: schema::Document<'static, String> = graphql_parser::parse_schema::<String>(&source).map_err(|e| e.to_string())?.into_static();
                    scrub(&mut source);
                    let d = Any::S(d);
                    (d.lower(), d.format(sty))
                }
            };
            if low != *doc {
                return Err(format!("the static document differs\n  {}", diff(&low, doc)));
            }
            if show != *printed {
                return Err("the static document prints differently".into());
            }
            doc_classes(text, doc, o);
        }
        Err(_) => o.class("refused"),
    }
    o.nontrivial = lex(text).toks.len() >= 6;
    Ok(())
}
/// Overwrites and frees.
fn scrub(s: &mut String) {
    let mut b = std::mem::take(s).into_bytes();
    b.iter_mut().for_each(|x| *x = b'#');
    std::hint::black_box(&b);
    drop(b);
    std::hint::black_box(vec![0xAAu8; 64]);
}
fn c17_fixed() -> Vec<Case> {
    work::big_styled(&[Lang::Query, Lang::Schema], "text")
}
pub static C17: Prop = Prop {
    id: "C17",
    rule: "Texts of both languages, whole and damaged, parsed with &str, String, Cow<str> and a user-defined string type; trees, positions, printed texts, errors, static values and the static document (its source overwritten and freed) are compared. Non-trivial: six tokens or more.",
    gen: c17_gen,
    check: c17_check,
    fixed: c17_fixed,
    quick: 500_000,
    thorough: 12_500_000,
    tapes: (600, 300),
    stack: STACK,
    cut: &["text"],
};

// ---- C19 ----

fn all_names() -> Vec<&'static str> {
    EXEC_LOCS.iter().chain(TYPE_LOCS.iter()).copied().collect()
}
fn c19_gen(g: &mut Gen, l: &mut Tape) -> Case {
    let names = all_names();
    let base = names[g.t.below(19)].to_string();
    let s = match l.weighted(&[2, 3, 3, 2, 2, 2]) {
        0 => base,
        1 => {
            let mut b: Vec<char> = base.chars().collect();
            let at = l.below(b.len());
            match l.below(4) {
                0 => {
                    b.remove(at);
                }
                1 => b[at] = *l.pick(&['_', 'A', 'E', 'S', 'T', 'x', '0', ' ', 'É', 'İ', 'ſ']),
                2 => b.insert(at, *l.pick(&['_', 'S', 'T', ' ', '\u{0}'])),
                _ => b[at] = b[at].to_ascii_lowercase(),
            }
            b.into_iter().collect()
        }
        2 => match l.below(6) {
            0 => base.to_lowercase(),
            1 => format!(" {}", base),
            2 => format!("{} ", base),
            3 => base.replace('_', ""),
            4 => format!("{}S", base),
            _ => base.split('_').map(|w| format!("{}{}", &w[..1], w[1..].to_lowercase())).collect(),
        },
        3 => {
            // parts of two names
            let o = names[l.below(19)];
            let (i, j) = (l.below(base.len() + 1), l.below(o.len() + 1));
            format!("{}{}", &base[..i], &o[j..])
        }
        4 => g.name(),
        _ => g.string(),
    };
    Case::new().with("name", s)
}
fn c19_check(c: &Case, o: &mut Obs) -> Verdict {
    let name = c.get("name");
    let want = lower::location(name);
    let got = DirectiveLocation::from_str(name).ok();
    if got != want {
        return Err(format!("{:?} reads as {:?} and not as {:?}", name, got, want));
    }
    if let Some(l) = &want {
        o.class("location");
        if l.as_str() != name {
            return Err(format!("{:?} is called {:?}", l, l.as_str()));
        }
        let exec = EXEC_LOCS.contains(&name);
        if l.is_query() != exec || l.is_schema() == exec {
            return Err(format!("{}: is_query {}, is_schema {}", name, l.is_query(), l.is_schema()));
        }
        for other in all_names() {
            let m = lower::location(other).unwrap();
            if (m == *l) != (other == name) || (m.as_str() == l.as_str()) != (other == name) {
                return Err(format!("{} and {} are not kept apart", name, other));
            }
        }
    } else {
        o.class("other string");
    }
    // the same set in a definition, alone and in company, when the string is a name
    let is_name = !name.is_empty() && !name.as_bytes()[0].is_ascii_digit() && name.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'_');
    if is_name {
        for (pre, post, at) in [("", "", 0), ("QUERY | ", "", 1), ("| ", " | ENUM", 0), ("ENUM_VALUE | FIELD | ", "", 2)] {
            let text = format!("directive @d on {}{}{}", pre, name, post);
            match (graphql_parser::parse_schema::<String>(&text), &want) {
                (Ok(d), Some(w)) => match &d.definitions[..] {
                    [schema::Definition::DirectiveDefinition(x)] if x.locations.get(at) == Some(w) => {}
                    _ => return Err(format!("{:?} is read as {:?}", text, d)),
                },
                (Err(_), None) => {}
                (Ok(_), None) => return Err(format!("{:?} is accepted", text)),
                (Err(e), Some(_)) => return Err(format!("{:?} is refused: {}", text, e)),
            }
        }
        o.class("tried in a definition");
    }
    o.nontrivial = is_name;
    Ok(())
}
fn c19_fixed() -> Vec<Case> {
    let mut v: Vec<Case> = all_names().into_iter().map(|n| Case::new().with("name", n)).collect();
    // every variant is among the nineteen
    v.push(Case::new().with("name", ""));
    v
}
pub static C19: Prop = Prop {
    id: "C19",
    rule: "All nineteen names, then names damaged by one edit, other cases, joined parts of two names, identifiers and arbitrary strings; reading, naming and classification are compared with an independent table, also inside directive definitions. Non-trivial: the string is a GraphQL name.",
    gen: c19_gen,
    check: c19_check,
    fixed: c19_fixed,
    quick: 600_000,
    thorough: 15_000_000,
    tapes: (30, 10),
    stack: STACK,
    cut: &["name"],
};
