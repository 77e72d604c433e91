//! C26: a refusal says what is wrong, whichever function refuses.

use super::*;
use crate::mutate;
use crate::refparse::Why;
use graphql_parser::minify_query;
use graphql_parser::query::consume_definition;

const BAD_LITERALS: [&str; 34] = [
    "\"\\q\"", "\"a\\", "\"\\u12\"", "\"\\u12G4\"", "\"\\uD800\"", "\"\\é\"", "\"\\u+123\"", "9223372036854775808", "-9223372036854775809",
    "1e999", "-1.5E400", "01", "-", "1.", "1.e1", "1e", "0x1F", "1a", "--1", "1.2.3", "\"x", "\"\"\"x", "\"\"\"x\\\"\"\"", "\"x\ny\"",
    "99999999999999999999999999", "-99999999999999999999999999", "-9223372036854775810", "10000000000000000000", "-1e9999", "1\u{e9}", "é", "\\", ".", "..",
];

/// A number out of range by little or much.
fn far(l: &mut Tape) -> String {
    let mut s = if l.chance(1, 2) { "-" } else { "" }.to_string();
    s.push((b'1' + l.below(9) as u8) as char);
    for _ in 0..[17, 18, 19, 20, 25, 40, 310][l.below(7)] {
        s.push((b'0' + l.below(10) as u8) as char);
    }
    s.push_str(l.pick(&["", "", "", ".0", "e309", "e5", ".5E+400"]));
    s
}

fn c26_gen(g: &mut Gen, l: &mut Tape) -> Case {
    g.budget = g.budget.min(80);
    let lang = g.lang();
    let text = match l.weighted(&[4, 4, 1]) {
        0 => mutate::near_text(lang, g, l).0,
        1 => {
            // something that is no value in place of a value
            let (_, text) = doc_text(lang, g, l, Layout::Free);
            let toks = lex(&text).toks;
            let vals: Vec<&Tok> = toks.iter().filter(|t| !matches!(t.kind, K::Punct | K::Name)).collect();
            let all: Vec<&Tok> = toks.iter().collect();
            let from = if vals.is_empty() || l.chance(1, 5) { &all } else { &vals };
            let t = from[l.below(from.len())];
            let (a, b) = (t.start, if l.chance(1, 6) { t.start } else { t.start + t.text.len() });
            let bad = if l.chance(1, 8) { far(l) } else { l.pick(&BAD_LITERALS).to_string() };
            format!("{}{}{}{}", &text[..a], bad, l.pick(&["", " ", "\n", ")", "]", ","]), &text[b..])
        }
        _ => mutate::any_text(g, l).0,
    };
    Case::new().with("lang", lang.name()).with("text", text)
}

fn quoted(msg: &str, what: &str) -> bool {
    let shown = format!("{:?}", what);
    msg.contains(what) || msg.contains(&what.escape_debug().to_string()) || msg.contains(&shown[1..shown.len() - 1])
}
/// What has to be said of what stands at the start of `rest`, which is no token.
fn lexical(msg: &str, rest: &str) -> Verdict {
    // what else could stand there is not said of it
    let said: Vec<&str> = msg.lines().filter(|l| !l.starts_with("Expected ")).collect();
    let msg = &said.join("\n")[..];
    let lower = msg.to_lowercase();
    let need = |b: bool, what: &str| if b { Ok(()) } else { Err(format!("the error does not say {}: {:?}", what, msg)) };
    match rest.chars().next() {
        Some('"') => {
            need(lower.contains("unterminated") && lower.contains("string"), "that the string does not end")?;
            need(lower.contains("block") == rest.starts_with("\"\"\""), "what kind of string does not end")
        }
        Some('-' | '0'..='9') => need(quoted(msg, &rest[..number_end(rest)]), "which number is wrong"),
        Some(c) => need(quoted(msg, &c.to_string()), "which character is wrong"),
        None => need(false, "anything"),
    }
}
/// The same of a token that has no value.
fn literal(msg: &str, t: &Tok) -> Verdict {
    let need = |b: bool, what: &str| if b { Ok(()) } else { Err(format!("the error does not say {}: {:?}", what, msg)) };
    match t.kind {
        K::Str => {
            let c: Vec<char> = t.text[1..t.text.len() - 1].chars().collect();
            let mut i = 0;
            while i < c.len() {
                if c[i] != '\\' {
                    i += 1;
                    continue;
                }
                let e = c[i + 1];
                i += 2;
                if e == 'u' {
                    let hex: String = c[i..c.len().min(i + 4)].iter().collect();
                    if hex.chars().count() < 4 || u32::from_str_radix(&hex, 16).ok().and_then(char::from_u32).is_none() || hex.starts_with('+') {
                        return need(quoted(msg, &hex), "which code is wrong");
                    }
                    i += 4;
                } else if !"\"\\/bfnrt".contains(e) {
                    return need(quoted(msg, &e.to_string()), "which escape is wrong");
                }
            }
            Ok(())
        }
        K::Int => need(msg.contains(if t.text.starts_with('-') { "too small" } else { "too large" }), "that the number is out of range"),
        K::Float => need(quoted(msg, t.text), "which number is out of range"),
        K::Name => need(msg.contains("directive location"), "that this is no location"),
        _ => Ok(()),
    }
}
/// The same of a definition that breaks a rule as a whole; `at` is its keyword.
fn whole(msg: &str, toks: &[Tok], at: usize) -> Verdict {
    let word = toks[at].text;
    if word == "schema" {
        let mut depth = 0;
        let mut i = at + 1;
        while i < toks.len() && !(depth == 0 && toks[i].text == "{") {
            depth += (toks[i].text == "(") as i32 - (toks[i].text == ")") as i32;
            i += 1;
        }
        let ops: Vec<&str> = toks[(i + 1).min(toks.len())..].iter().take_while(|t| t.text != "}").map(|t| t.text).step_by(3).collect();
        for (k, op) in ops.iter().enumerate() {
            if !["query", "mutation", "subscription"].contains(op) {
                if !msg.contains(&format!("`{}[Name]`", op)) {
                    return Err(format!("the error does not name the operation {:?}: {:?}", op, msg));
                }
                if !["query", "mutation", "subscription"].iter().all(|w| expected(msg).contains(&w.to_string())) {
                    return Err(format!("the error does not say which operations there are: {:?}", msg));
                }
            } else if ops[..k].contains(op) && !msg.contains(&format!("duplicate `{}` operation", op)) {
                return Err(format!("the error does not say that {} is there twice: {:?}", op, msg));
            }
        }
        return Ok(());
    }
    let kind = match word {
        "type" => "object",
        w => w,
    };
    if !msg.to_lowercase().contains(kind) || !msg.contains("at least one") {
        return Err(format!("the error does not say that a {} extension is empty: {:?}", kind, msg));
    }
    Ok(())
}
/// The things listed after "Expected".
pub fn expected(msg: &str) -> Vec<String> {
    msg.lines()
        .filter_map(|l| l.strip_prefix("Expected "))
        .flat_map(|l| l.split(", ").flat_map(|x| x.split(" or ")).map(String::from).collect::<Vec<_>>())
        .collect()
}

fn c26_check(c: &Case, o: &mut Obs) -> Verdict {
    let lang = lang_of(c);
    let text = c.get("text");
    let lx = lex(text);
    if lx.stop == Stop::Bad {
        if let Err(e) = minify_query(text.to_string()) {
            let e = e.to_string();
            let Some(m) = e.strip_prefix("query minify error: ") else {
                return Err(format!("minifying fails with an error of another form: {:?}", e));
            };
            lexical(m, &text[lx.stop_off..])?;
            o.class("minifying refused");
        }
    }
    if lang == Lang::Query && refparse::consume(text).is_err() {
        let a = consume_definition::<&str>(text).map(|_| ()).map_err(|e| e.to_string());
        let b = graphql_parser::parse_query::<&str>(text).map(|_| ()).map_err(|e| e.to_string());
        if a != b && a.is_err() && b.is_err() {
            return Err(format!("consuming says {:?}\n  parsing {:?}", a, b));
        }
        o.class("consuming refused");
    }
    // which texts are refused, and where, is judged elsewhere
    let r = match refparse::parse(lang, text) {
        Err(r) if !lx.lone_cr => r,
        _ => return Ok(()),
    };
    let Err(e) = parse_doc(lang, text) else { return Ok(()) };
    let Some((pos, msg)) = errors::head(lang, &e) else { return Err(format!("an error of another form: {:?}", e)) };
    if pos != r.pos {
        return Ok(());
    }
    let at = lx.toks.iter().position(|t| t.pos == r.pos);
    match r.why {
        Why::Lex => lexical(msg, &text[lx.stop_off..]).map_err(|x| format!("{} (at {:?})", x, &text[lx.stop_off..]))?,
        Why::Literal => literal(msg, &lx.toks[at.ok_or("harness: no token there")?])?,
        Why::Whole => whole(msg, &lx.toks, at.ok_or("harness: no token there")?)?,
        Why::Token | Why::End | Why::TooDeep => return Ok(()),
    }
    o.class(match r.why {
        Why::Lex => "no token",
        Why::Literal => "no value",
        _ => "definition as a whole",
    });
    o.nontrivial = true;
    Ok(())
}
fn c26_fixed() -> Vec<Case> {
    let mut v = Vec::new();
    for b in BAD_LITERALS {
        for t in [format!("{{a(b:{})}}", b), format!("{{a}} {}", b), b.to_string(), format!("{{a {}}}", b)] {
            v.push(Case::new().with("lang", "query").with("text", t));
        }
        for t in [format!("input I{{a:A={}}}", b), format!("scalar S {}", b), b.to_string(), format!("directive @d on {}", b)] {
            v.push(Case::new().with("lang", "schema").with("text", t));
        }
    }
    for t in [
        "schema{query:A query:B}", "schema{mutation:A query:C mutation:B}", "schema@d(a:{b:1}){subscription:A subscription:B}", "schema{queries:Q}",
        "extend scalar S", "extend type T", "extend interface I", "extend union U", "extend enum E", "extend input I", "directive@d on FIELDS",
    ] {
        v.push(Case::new().with("lang", "schema").with("text", t));
    }
    v.extend(work::big_wrong(&[Lang::Query, Lang::Schema]));
    // and what is no token or no value, a long way down
    let unread: Vec<&str> = BAD_LITERALS.iter().copied().filter(|b| !b.starts_with("\"\"\"")).collect();
    for (i, c) in work::big_cases(&[Lang::Query, Lang::Schema], "text").into_iter().enumerate() {
        let text = format!("{}\n{}", c.get("text"), unread[i % unread.len()]);
        v.push(Case::new().with("lang", c.get("lang").to_string()).with("text", text));
    }
    v
}

pub static C26: Prop = Prop {
    id: "C26",
    rule: "Damaged documents, documents with a malformed literal in some place, and other texts. Where the reference lexer finds no token, the reference decoder no value or the reference parser a rule broken by a whole definition, the message has to quote or name the fault; consuming has to give the very error of parsing, minifying to name the first unreadable token. Non-trivial: refused by parsing for such a fault.",
    gen: c26_gen,
    check: c26_check,
    fixed: c26_fixed,
    quick: 500_000,
    thorough: 15_000_000,
    tapes: (300, 300),
    stack: STACK,
    cut: &["text"],
};
