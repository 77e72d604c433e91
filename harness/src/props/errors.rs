//! C23: what a syntax error says.

use super::*;
use crate::mutate;
use crate::refparse::Why;

/// Where a message says the error is, and the lines after that.
pub fn head(lang: Lang, msg: &str) -> Option<(P, &str)> {
    let rest = msg.strip_prefix(&format!("{} parse error: Parse error at ", lang.name())[..])?;
    let (pos, rest) = rest.split_once('\n')?;
    let (l, c) = pos.split_once(':')?;
    Some((P(l.parse().ok()?, c.parse().ok()?), rest))
}

fn kind_name(k: K) -> &'static str {
    match k {
        K::Punct => "Punctuator",
        K::Name => "Name",
        K::Int => "IntValue",
        K::Float => "FloatValue",
        K::Str => "StringValue",
        K::Block => "BlockString",
    }
}

/// What an expectation looks like in a text.
fn spelled(x: &str) -> Option<&str> {
    const WORDS: [&str; 27] = [
        "query", "mutation", "subscription", "fragment", "on", "true", "false", "null", "schema", "extend", "scalar", "type", "interface", "union",
        "enum", "input", "directive", "implements", "repeatable", "!", "$", ":", "=", "@", "|", "&", "...",
    ];
    Some(match x {
        "Name" => "QUERY",
        "IntValue" => "1",
        "FloatValue" => "1.5",
        "StringValue" => "\"s\"",
        "BlockString" => "\"\"\"s\"\"\"",
        "(" | ")" | "[" | "]" | "{" | "}" => x,
        _ if WORDS.contains(&x) => x,
        _ => return None,
    })
}

/// Always tried after the wrong token.
const TAILS: [&str; 4] = ["", " }", "\n{a}", " %"];

fn c23_gen(g: &mut Gen, l: &mut Tape) -> Case {
    g.budget = g.budget.min(60);
    let lang = g.lang();
    let (text, _) = mutate::near_text(lang, g, l);
    let mut tail = l.pick(&["", " ", "\n", ",", "#", "\u{feff}", "\t"]).to_string();
    match l.below(3) {
        0 => tail += &mutate::chars(l),
        1 => tail += &mutate::soup(l),
        _ => {
            for _ in 0..1 + l.below(4) {
                tail += &mutate::token(l, true);
                tail += " ";
            }
        }
    }
    Case::new().with("lang", lang.name()).with("text", text).with("tail", tail)
}
fn c23_check(c: &Case, o: &mut Obs) -> Verdict {
    let lang = lang_of(c);
    let text = c.get("text");
    let lx = lex(text);
    // which texts are refused is C04's and C05's concern, and where C12's
    let r = match refparse::parse(lang, text) {
        Err(r) if !lx.lone_cr && matches!(r.why, Why::Token | Why::End) => r,
        _ => return Ok(()),
    };
    let Err(e) = parse_doc(lang, text) else { return Ok(()) };
    let Some((pos, rest)) = head(lang, &e) else { return Err(format!("an error of another form: {:?}", e)) };
    if pos != r.pos {
        return Ok(());
    }
    o.nontrivial = r.pos != P(1, 1);
    let wrong = lx.toks.iter().find(|t| t.pos == r.pos);
    let want = match wrong {
        Some(t) => {
            o.class(kind_name(t.kind));
            format!("Unexpected `{}[{}]`\n", t.text, kind_name(t.kind))
        }
        None => {
            o.class("end of input");
            "Unexpected end of input\n".to_string()
        }
    };
    match rest.strip_prefix(&want[..]) {
        None => return Err(format!("the error does not say {:?}: {:?}", want, e)),
        Some(x) if !x.starts_with("Expected ") => return Err(format!("the error does not say what was expected: {:?}", e)),
        Some(_) => {}
    }
    let before = &text[..wrong.map_or(text.len(), |t| t.start)];
    let mut right = false;
    for x in faults::expected(rest) {
        let Some(s) = spelled(&x) else {
            if x == "end of input" {
                right |= refparse::parse(lang, before).is_ok();
                continue;
            }
            return Err(format!("the error expects {:?}, which is nothing: {:?}", x, e));
        };
        // with it, reading goes on
        let line = if before.rfind('#') > before.rfind(['\n', '\r']) { "\n" } else { " " };
        let with = format!("{}{}{}", before, line, s);
        let at = before.len() + 1;
        right |= match refparse::parse(lang, &with) {
            Ok(_) => true,
            Err(r2) => match lex(&with).toks.iter().find(|t| t.start == at) {
                Some(t) => r2.pos > t.pos || matches!(r2.why, Why::Whole | Why::Literal),
                None => false,
            },
        };
    }
    if !right {
        return Err(format!("nothing that the error expects could stand there: {:?}", e));
    }
    let Some(t) = wrong else { return Ok(()) };
    let end = t.start + t.text.len();
    for tail in TAILS.iter().copied().chain([c.get("tail")]) {
        let other = format!("{}{}", &text[..end], tail);
        // a tail may have made another token of it
        match lex_limit(&other, lx.toks.len() + 1).toks.iter().find(|x| x.start == t.start) {
            Some(x) if x.text == t.text => {}
            _ => continue,
        }
        o.class_if(tail == c.get("tail"), "tail compared");
        let e2 = parse_doc(lang, &other).err();
        if e2.as_ref() != Some(&e) {
            return Err(format!("with {:?} after the wrong token {:?} the error is {:?}, and not {:?}", tail, t.text, e2, e));
        }
    }
    Ok(())
}

fn c23_fixed() -> Vec<Case> {
    // one wrong token of each kind, and the end of the text
    ["}", "{ a", "{ a b: 1 }", "{ a(b: \"x", "{ a @ \"s\" }", "{ a 1.5 }", "query 7 { a }", "query Q \"\"\"b\nc\"\"\" { a }", "fragment F in T { a }"]
        .iter()
        .flat_map(|t| {
            [Lang::Query, Lang::Schema].map(|l| Case::new().with("lang", l.name()).with("text", *t).with("tail", " x"))
        })
        .chain(work::big_wrong(&[Lang::Query, Lang::Schema]).into_iter().map(|c| c.with("tail", " } x")))
        .collect()
}

pub static C23: Prop = Prop {
    id: "C23",
    rule: "Damaged documents as for C04 and C05 that the reference parser refuses at a token or at the end of the text; the message has to name that token, its kind, and something expected, and to stay the same with five other texts after the wrong token. Non-trivial: refused, and not at the first character.",
    gen: c23_gen,
    check: c23_check,
    fixed: c23_fixed,
    quick: 600_000,
    thorough: 20_000_000,
    tapes: (250, 300),
    stack: STACK,
    cut: &["text", "tail"],
};
