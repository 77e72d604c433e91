//! Near-documents and non-documents.

use crate::dict::dict;
use crate::emit::*;
use crate::gen::*;
use crate::model::*;
use crate::reflex::*;

const TOKENS: [&str; 60] = [
    "{", "}", "(", ")", "[", "]", "!", "$", ":", "=", "@", "|", "&", "...", "a", "b", "on", "query", "mutation",
    "subscription", "fragment", "type", "input", "enum", "union", "interface", "scalar", "schema", "extend", "directive",
    "implements", "repeatable", "true", "false", "null", "QUERY", "FIELD", "OBJECT", "Foo", "_", "0", "1", "-1", "1.5",
    "1e5", "9223372036854775808", "\"s\"", "\"\"", "\"\"\"b\"\"\"", "\"\"\"\n  x\n y\"\"\"", "\"\\u0041\"", "\"\\q\"",
    "1e400", "-0", "FIELD_DEFINITION", "QUERIES", "name", "\"\\u{41}\"", "e", "x9",
];
const JUNK: [&str; 26] = [
    "01", "1x", "-", "1.", ".5", "..", ".", "%", ";", "\"", "\"\"\"", "\"a\n\"", "?", "\u{0}", "é", "\u{3000}", "😀", "1e", "1e+",
    "\u{b}", "1.2.3", "<", "\\", "`", "0x1", "--1",
];

/// A token that could stand somewhere, or junk.
pub fn token(t: &mut Tape, junk: bool) -> String {
    if junk && t.chance(1, 12) {
        t.pick(&JUNK).to_string()
    } else if t.chance(1, 24) {
        match t.below(4) {
            0 if junk => dict().string(t),
            _ => dict().word(t),
        }
        .unwrap_or_else(|| "a".into())
    } else {
        t.pick(&TOKENS).to_string()
    }
}

/// Space-separated tokens with no plan.
pub fn soup(t: &mut Tape) -> String {
    let n = 1 + t.below(25);
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(&token(t, true));
        if !t.chance(1, 5) {
            s.push(*t.pick(&[' ', '\n', ',', '\t', '\r']));
        }
    }
    s
}

/// Arbitrary characters, with a liking for those the lexer knows.
pub fn chars(t: &mut Tape) -> String {
    let n = t.below(40);
    let mut g = String::new();
    for _ in 0..n {
        let c = match t.weighted(&[8, 8, 4, 4, 1]) {
            4 => {
                g.push_str(&dict().string(t).unwrap_or_default());
                continue;
            }
            0 => *t.pick(&['{', '}', '(', ')', '[', ']', '!', '$', ':', '=', '@', '|', '&', '.', '"', '\\', '#', ',', '-', '+']),
            1 => *t.pick(&['a', 'e', 'E', 'n', 'u', 'x', '_', '0', '1', '9', 'T']),
            2 => *t.pick(&[' ', '\n', '\r', '\t', '\u{feff}']),
            _ => match t.below(4) {
                0 => char::from_u32(t.below(0x80) as u32).unwrap(),
                1 => *t.pick(&['é', '\u{85}', '\u{a0}', '\u{2028}', '\u{3000}', '中', '\u{fffd}', '\u{200b}']),
                2 => *t.pick(&['😀', '\u{10000}', '\u{10ffff}']),
                _ => char::from_u32(t.below(0x11_0000) as u32).unwrap_or('\u{d7ff}'),
            },
        };
        // sometimes three in a row, so that block quotes and dots come up
        let k = if matches!(c, '"' | '.') && t.chance(1, 2) { 3 } else { 1 };
        for _ in 0..k {
            g.push(c);
        }
    }
    g
}

fn owned(lx: &Lexed) -> Vec<ETok> {
    lx.toks.iter().map(|k| ETok { kind: k.kind, text: k.text.to_string() }).collect()
}

/// Runs of tokens that stand in some place of the grammar and not in others.
const PHRASES: [&[&str]; 40] = [
    &["$", "v"], &["[", "]"], &["{", "}"], &["(", ")"], &["{", "a", ":", "$", "v", "}"], &["[", "$", "v", "]"], &["[", "[", "$", "v", "]", "]"],
    &["{", "a", ":", "[", "$", "v", "]", "}"], &["{", "a", ":", "1", "}"], &["[", "1", "2", "]"], &["@", "d"], &["@", "d", "(", ")"],
    &["@", "d", "(", "a", ":", "$", "v", ")"], &["@"], &["=", "1"], &["=", "$", "v"], &["="], &[":", "Int"], &[":", "1"], &[":"],
    &["on", "A"], &["on"], &["...", "on", "A", "{", "b", "}"], &["...", "on"], &["...", "A"], &["...", "{", "b", "}"], &["..."],
    &["implements", "A"], &["implements"], &["&", "A"], &["|", "A"], &["|"], &["\"d\""], &["!"], &["[", "Int", "]"], &["{", "a", "}"],
    &["(", "a", ":", "1", ")"], &["(", "$", "v", ":", "T", ")"], &["alias", ":", "b"], &["extend"],
];
/// The place of the bracket that closes this one.
fn matching(v: &[ETok], at: usize) -> Option<usize> {
    let mut open = 0usize;
    for (i, k) in v.iter().enumerate().skip(at) {
        match &k.text[..] {
            "(" | "[" | "{" => open += 1,
            ")" | "]" | "}" => {
                open = open.checked_sub(1)?;
                if open == 0 {
                    return Some(i);
                }
            }
            _ => {}
        }
    }
    None
}
/// Edits that know a little about the grammar: phrases put in or in place of others, brackets
/// emptied, dropped, put around or changed.
fn phrases(v: &mut Vec<ETok>, t: &mut Tape) {
    let raw = |s: &str| ETok { kind: K::Name, text: s.to_string() };
    let brackets: Vec<usize> = (0..v.len()).filter(|&i| matches!(&v[i].text[..], "(" | "[" | "{")).collect();
    match t.weighted(&[3, 5, 2, 2, 1, 1, 2]) {
        // numbers with something right behind
        6 => {
            let spots: Vec<usize> = (1..v.len()).filter(|&i| matches!(v[i].kind, K::Int | K::Float) || v[i - 1].text == "[" && v[i].kind != K::Punct).collect();
            if !spots.is_empty() {
                let at = *t.pick(&spots);
                let glued = raw(&glued_number(t));
                match t.below(3) {
                    0 => v[at] = glued,
                    // where two values may stand in a row
                    1 => drop(v.splice(at..at + 1, [raw("["), glued, raw("]")])),
                    _ => v.insert(at, glued),
                }
            }
        }
        0 => {
            let at = t.below(v.len() + 1);
            let p: Vec<ETok> = t.pick(&PHRASES).iter().map(|s| raw(s)).collect();
            v.splice(at..at, p);
        }
        1 => {
            // a word or literal that follows one of these is often a value
            let spots: Vec<usize> = (1..v.len())
                .filter(|&i| v[i].kind != K::Punct && v[i].text != "{" && matches!(&v[i - 1].text[..], ":" | "=" | "[" | "on" | "implements" | "|"))
                .collect();
            if !spots.is_empty() {
                let at = *t.pick(&spots);
                let n = if t.chance(1, 2) { 7 } else { PHRASES.len() };
                let p: Vec<ETok> = t.pick(&PHRASES[..n]).iter().map(|s| raw(s)).collect();
                v.splice(at..at + 1, p);
            }
        }
        k @ 2..=5 if !brackets.is_empty() => {
            let at = *t.pick(&brackets);
            if let Some(end) = matching(v, at) {
                match k {
                    2 => drop(v.drain(at + 1..end)),
                    3 => {
                        let end = if t.chance(1, 2) { end + 1 } else { end };
                        v.drain(at..end);
                    }
                    4 => {
                        let (a, b) = *t.pick(&[("(", ")"), ("[", "]"), ("{", "}")]);
                        v[at] = raw(a);
                        v[end] = raw(b);
                    }
                    _ => {
                        v.remove(end);
                        v.remove(at);
                    }
                }
            }
        }
        _ => {}
    }
}

/// A number, and without anything between what could be taken for more of it or not.
fn glued_number(t: &mut Tape) -> String {
    const TAILS: [&str; 28] = [
        "_", "_000", "_1", "x", "a", "e", "E", "e5", ".5", ".", ".e", "n", "L", "f", "u8", "i64", "é", "-1", "-", "+", "+1", "\"s\"", "...", "..", "%", "x1F", "'000", "\u{a0}",
    ];
    let mut s = String::from(if t.chance(1, 4) { "-" } else { "" });
    for i in 0..1 + t.few(19) {
        s.push((b'0' + if i == 0 { 1 + t.below(9) } else { t.below(10) } as u8) as char);
    }
    if t.chance(1, 4) {
        s.push_str(t.pick(&[".5", ".25", "e5", "E-3", ".0e+1"]));
    }
    if t.chance(1, 8) {
        s.insert(0, '0');
    }
    for _ in 0..1 + t.few(2) {
        s.push_str(t.pick(&TAILS));
    }
    s
}
/// A word much like this one.
fn respelled(w: &str, t: &mut Tape) -> String {
    match t.below(8) {
        0 => w.to_uppercase(),
        1 => w.to_lowercase(),
        2 => w[..1].to_uppercase() + &w[1..],
        3 => format!("{}{}", w, t.pick(&["s", "_", "0", "S", "x", "on"])),
        4 => format!("{}{}", t.pick(&["x", "_", "on", "a", "__"]), w),
        5 if w.len() > 1 => w[..w.len() - 1].to_string(),
        6 if w.len() > 1 && !w.as_bytes()[1].is_ascii_digit() => w[1..].to_string(),
        _ => {
            let at = t.below(w.len());
            format!("{}{}", &w[..=at], &w[at..])
        }
    }
}
/// Edits at the level of tokens.
pub fn tokens(text: &str, other: &str, t: &mut Tape) -> String {
    let mut v = owned(&lex(text));
    let n = 1 + t.few(3);
    for _ in 0..n {
        if t.chance(1, 4) {
            phrases(&mut v, t);
            continue;
        }
        let at = t.below(v.len() + 1);
        let raw = |s: String| ETok { kind: K::Name, text: s };
        match t.weighted(&[4, 4, 4, 2, 2, 2, 1, 2, 3]) {
            0 => {
                if at < v.len() {
                    v.remove(at);
                }
            }
            1 => v.insert(at, raw(token(t, true))),
            2 => {
                if at < v.len() {
                    v[at] = raw(token(t, true));
                }
            }
            3 => {
                if at < v.len() {
                    let x = v[at].clone();
                    v.insert(at, x);
                }
            }
            4 => {
                if at + 1 < v.len() {
                    v.swap(at, at + 1);
                }
            }
            5 => v.truncate(at),
            6 => {
                let o = owned(&lex(other));
                let from = t.below(o.len() + 1);
                v.truncate(at);
                v.extend_from_slice(&o[from..]);
            }
            7 => {
                // a run of tokens moves or is repeated
                if at < v.len() {
                    let len = 1 + t.below(6);
                    let run: Vec<ETok> = v[at..(at + len).min(v.len())].to_vec();
                    let to = t.below(v.len() + 1);
                    v.splice(to..to, run);
                }
            }
            _ => {
                // a token of the same kind, so that the grammar is kept and the words change
                if at < v.len() {
                    v[at].text = match v[at].kind {
                        K::Name if v[at].text.is_ascii() && !v[at].text.is_empty() && t.chance(1, 2) => respelled(&v[at].text, t),
                        K::Name => t.pick(&KEYWORDS).to_string(),
                        K::Punct => t.pick(&["{", "}", "(", ")", "[", "]", "!", "$", ":", "=", "@", "|", "&", "..."]).to_string(),
                        K::Int | K::Float => t.pick(&["0", "-0", "1.0", "1e400", "9223372036854775808", "-9223372036854775809", "1E9", "-"]).to_string(),
                        _ => t.pick(&["\"\"", "\"\\x\"", "\"\\uD800\"", "\"\"\" \"\"\"", "\"\\u12\""]).to_string(),
                    };
                }
            }
        }
    }
    let layout = if t.chance(1, 2) { Layout::Free } else { Layout::Plain };
    render(&v, t, layout).text
}

fn boundary(s: &str, mut i: usize) -> usize {
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    i
}

/// Edits at the level of characters.
pub fn characters(text: &str, t: &mut Tape) -> String {
    let mut s = text.to_string();
    let n = 1 + t.few(3);
    for _ in 0..n {
        let at = boundary(&s, t.below(s.len() + 1));
        match t.weighted(&[8, 8, 6, 2, 2, 1]) {
            5 => s.insert_str(at, &dict().string(t).unwrap_or_default()),
            0 => {
                if at < s.len() {
                    s.remove(at);
                }
            }
            1 => {
                let mut c = chars(t);
                c.truncate(boundary(&c, c.len().min(1 + t.below(3))));
                s.insert_str(at, &c);
            }
            2 => {
                if at < s.len() {
                    s.remove(at);
                    let c = *t.pick(&['"', '\\', '.', '-', '0', '{', '}', '\u{feff}', '\r', '\n', '#', 'é', 'e', '!', ' ', '%', '\u{3000}']);
                    s.insert(at, c);
                }
            }
            3 => s.truncate(at),
            _ => {
                let to = boundary(&s, (at + t.below(30)).min(s.len()));
                let cut = s[at..to].to_string();
                s.insert_str(at, &cut);
            }
        }
    }
    s
}

/// Long texts are rare, since they take long.
pub const BIG_ONE_IN: usize = 3000;

/// Any text at all: a document of either language, whole or damaged, or no document.
pub fn any_text(g: &mut Gen, l: &mut Tape) -> (String, &'static str) {
    let lang = g.lang();
    if g.t.chance(1, BIG_ONE_IN) {
        return (crate::props::work::near_big(lang, g, l), "long");
    }
    let mut d = g.doc(lang);
    let text = write_doc(&mut d, l, Layout::Free).0.text;
    match l.weighted(&[3, 6, 4, 3, 3]) {
        0 => (text, "document"),
        1 => {
            let lang = g.lang();
            let mut o = g.doc(lang);
            let other = write_doc(&mut o, l, Layout::Plain).0.text;
            (tokens(&text, &other, l), "token edits")
        }
        2 => (characters(&text, l), "character edits"),
        3 => (soup(l), "token soup"),
        _ => (chars(l), "characters"),
    }
}

/// A near-document of one language.
pub fn near_text(lang: Lang, g: &mut Gen, l: &mut Tape) -> (String, &'static str) {
    if g.t.chance(1, BIG_ONE_IN) {
        return (crate::props::work::near_big(lang, g, l), "long");
    }
    // now and then the other language throughout
    let base = if g.t.chance(1, 12) { if lang == Lang::Query { Lang::Schema } else { Lang::Query } } else { lang };
    let mut d = g.doc(base);
    let text = write_doc(&mut d, l, if l_plain(&mut g.t) { Layout::Plain } else { Layout::Free }).0.text;
    match l.weighted(&[10, 4, 2, 1, 1]) {
        0 => {
            let ol = if g.t.chance(1, 6) { g.lang() } else { lang };
            g.budget = g.budget.max(10);
            let mut o = g.doc(ol);
            let other = write_doc(&mut o, l, Layout::Plain).0.text;
            (tokens(&text, &other, l), "token edits")
        }
        1 => (characters(&text, l), "character edits"),
        2 => {
            // every prefix is a near-document
            let lx = lex(&text);
            let k = l.below(lx.toks.len() + 1);
            let end = lx.toks.get(k).map_or(text.len(), |x| x.start);
            (text[..end].to_string(), "prefix")
        }
        3 => (soup(l), "token soup"),
        _ => (text, "document"),
    }
}
fn l_plain(t: &mut Tape) -> bool {
    t.chance(1, 3)
}
