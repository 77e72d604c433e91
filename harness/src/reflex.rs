//! Reference lexer and literal decoding, written from the GraphQL specification
//! (plus the deviations listed in DESIGN.md), sharing no code with the crate.

use crate::model::P;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    Punct,
    Name,
    Int,
    Float,
    Str,
    Block,
}

#[derive(Clone, Copy, Debug)]
pub struct Tok<'a> {
    pub kind: K,
    pub text: &'a str,
    pub start: usize,
    pub pos: P,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Stop {
    Eof,
    /// not a token
    Bad,
    /// one bracket too deep
    TooDeep,
}

#[derive(Clone, Debug)]
pub struct Lexed<'a> {
    pub toks: Vec<Tok<'a>>,
    pub stop: Stop,
    pub stop_pos: P,
    pub stop_off: usize,
    /// a carriage return that is not part of CR LF stands outside every token
    pub lone_cr: bool,
    pub max_depth: usize,
}

pub const LIMIT: usize = 50;

fn is_digits(s: &[u8]) -> bool {
    !s.is_empty() && s.iter().all(|b| b.is_ascii_digit())
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Num {
    Int,
    Float,
    Bad,
}

/// The specification's numeric grammar.
pub fn classify_spec(s: &str) -> Num {
    let b = s.as_bytes();
    let mut i = 0;
    if b.first() == Some(&b'-') {
        i = 1;
    }
    let d0 = i;
    while i < b.len() && b[i].is_ascii_digit() {
        i += 1;
    }
    if i == d0 || (b[d0] == b'0' && i - d0 > 1) {
        return Num::Bad;
    }
    if i == b.len() {
        return Num::Int;
    }
    if b[i] == b'.' {
        let f0 = i + 1;
        i = f0;
        while i < b.len() && b[i].is_ascii_digit() {
            i += 1;
        }
        if i == f0 {
            return Num::Bad;
        }
        if i == b.len() {
            return Num::Float;
        }
    }
    if b[i] != b'e' && b[i] != b'E' {
        return Num::Bad;
    }
    i += 1;
    if i < b.len() && (b[i] == b'+' || b[i] == b'-') {
        i += 1;
    }
    if is_digits(&b[i..]) {
        Num::Float
    } else {
        Num::Bad
    }
}

/// An exponent that starts with the digit 0 and has no sign, as in `1e0`: a float by
/// the specification, but the repository's own test `no_exp_sign_float` demands that it
/// is refused.
pub fn is_unsigned_zero_exp(s: &str) -> bool {
    match s.find(['e', 'E']) {
        Some(i) => s[i + 1..].starts_with('0'),
        None => false,
    }
}

pub fn classify(s: &str) -> Num {
    match classify_spec(s) {
        Num::Float if is_unsigned_zero_exp(s) => Num::Bad,
        n => n,
    }
}

/// Characters that may stand between tokens; returns the offset of the next token and
/// whether a lone CR was passed. `pos` is advanced.
pub fn skip_ignored(text: &str, from: usize, pos: &mut P) -> (usize, bool) {
    let b = text.as_bytes();
    let mut i = from;
    let mut lone = false;
    while i < b.len() {
        match b[i] {
            b' ' | b',' => {
                pos.1 += 1;
                i += 1;
            }
            b'\t' => {
                pos.1 += 8;
                i += 1;
            }
            b'\n' => {
                *pos = P(pos.0 + 1, 1);
                i += 1;
            }
            b'\r' => {
                if b.get(i + 1) != Some(&b'\n') {
                    lone = true;
                }
                i += 1;
            }
            b'#' => {
                while i < b.len() && b[i] != b'\n' && b[i] != b'\r' {
                    i += 1;
                }
                if i < b.len() {
                    if b[i] == b'\r' && b.get(i + 1) == Some(&b'\n') {
                        // the line feed is counted when it is met
                        i += 1;
                    } else {
                        if b[i] == b'\r' {
                            lone = true;
                        }
                        *pos = P(pos.0 + 1, 1);
                        i += 1;
                    }
                }
            }
            0xEF if text[i..].starts_with('\u{feff}') => i += 3,
            _ => break,
        }
    }
    (i, lone)
}

pub fn number_end(rest: &str) -> usize {
    rest.find(|c: char| {
        matches!(
            c,
            ' ' | '\n' | '\r' | '\t' | ',' | '#' | '!' | '$' | ':' | '=' | '@' | '|' | '&' | '(' | ')' | '[' | ']' | '{' | '}' | '"' | '\u{feff}'
        )
    })
    .unwrap_or(rest.len())
}

/// Length of the quoted literal at the start of `rest`, if it is terminated.
fn quoted_len(rest: &str) -> Option<usize> {
    let b = rest.as_bytes();
    let mut i = 1;
    while i < b.len() {
        match b[i] {
            b'\n' => return None,
            b'"' => return Some(i + 1),
            b'\\' => {
                // an escaped line feed still ends the line
                if b.get(i + 1) == Some(&b'\n') {
                    return None;
                }
                i += 2;
            }
            _ => i += 1,
        }
    }
    None
}

fn block_len(rest: &str) -> Option<usize> {
    let b = rest.as_bytes();
    let mut i = 3;
    while i + 3 <= b.len() {
        if b[i..].starts_with(b"\\\"\"\"") {
            i += 4;
        } else if b[i..].starts_with(b"\"\"\"") {
            return Some(i + 3);
        } else {
            i += 1;
        }
    }
    None
}

fn advance(pos: &mut P, tok: &str) {
    match tok.rfind('\n') {
        Some(i) => {
            pos.0 += tok.matches('\n').count() as u32;
            pos.1 = 1 + tok[i + 1..].chars().count() as u32;
        }
        None => pos.1 += tok.chars().count() as u32,
    }
}

pub fn lex(text: &str) -> Lexed<'_> {
    lex_limit(text, LIMIT)
}

pub fn lex_limit(text: &str, limit: usize) -> Lexed<'_> {
    lex_some(text, limit, usize::MAX)
}

/// The first so many tokens; with more to come, the end is none of the text.
pub fn lex_some(text: &str, limit: usize, most: usize) -> Lexed<'_> {
    let mut out = Lexed { toks: Vec::new(), stop: Stop::Eof, stop_pos: P(1, 1), stop_off: 0, lone_cr: false, max_depth: 0 };
    let mut pos = P(1, 1);
    let mut off = 0;
    // signed: surplus closing brackets lower it
    let mut depth: i64 = 0;
    loop {
        let (o, lone) = skip_ignored(text, off, &mut pos);
        off = o;
        out.lone_cr |= lone;
        out.stop_pos = pos;
        out.stop_off = off;
        let rest = &text[off..];
        let c = match rest.chars().next() {
            None => {
                out.stop = Stop::Eof;
                return out;
            }
            Some(c) => c,
        };
        let (kind, len) = match c {
            '(' | '[' | '{' => {
                if depth >= limit as i64 {
                    out.stop = Stop::TooDeep;
                    return out;
                }
                depth += 1;
                out.max_depth = out.max_depth.max(depth.max(0) as usize);
                (K::Punct, 1)
            }
            ')' | ']' | '}' => {
                depth -= 1;
                (K::Punct, 1)
            }
            '!' | '$' | ':' | '=' | '@' | '|' | '&' => (K::Punct, 1),
            '.' if rest.starts_with("...") => (K::Punct, 3),
            'a'..='z' | 'A'..='Z' | '_' => {
                (K::Name, rest.bytes().take_while(|b| b.is_ascii_alphanumeric() || *b == b'_').count())
            }
            '-' | '0'..='9' => {
                let len = number_end(rest);
                match classify(&rest[..len]) {
                    Num::Int => (K::Int, len),
                    Num::Float => (K::Float, len),
                    Num::Bad => {
                        out.stop = Stop::Bad;
                        return out;
                    }
                }
            }
            '"' => {
                let r = if rest.starts_with("\"\"\"") {
                    block_len(rest).map(|l| (K::Block, l))
                } else {
                    quoted_len(rest).map(|l| (K::Str, l))
                };
                match r {
                    Some(x) => x,
                    None => {
                        out.stop = Stop::Bad;
                        return out;
                    }
                }
            }
            _ => {
                out.stop = Stop::Bad;
                return out;
            }
        };
        let text_ = &rest[..len];
        out.toks.push(Tok { kind, text: text_, start: off, pos });
        advance(&mut pos, text_);
        off += len;
        if out.toks.len() >= most {
            out.stop_pos = pos;
            out.stop_off = off;
            return out;
        }
    }
}

/// The value of a quoted literal, quotes included in `lit`.
pub fn decode_quoted(lit: &str) -> Option<String> {
    let body: Vec<char> = lit[1..lit.len() - 1].chars().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < body.len() {
        if body[i] != '\\' {
            out.push(body[i]);
            i += 1;
            continue;
        }
        let e = *body.get(i + 1)?;
        i += 2;
        out.push(match e {
            '"' => '"',
            '\\' => '\\',
            '/' => '/',
            'b' => '\u{8}',
            'f' => '\u{c}',
            'n' => '\n',
            'r' => '\r',
            't' => '\t',
            'u' => {
                let mut v = 0u32;
                for k in 0..4 {
                    v = v * 16 + body.get(i + k)?.to_digit(16)?;
                }
                i += 4;
                char::from_u32(v)?
            }
            _ => return None,
        });
    }
    Some(out)
}

fn is_blank(l: &str) -> bool {
    l.chars().all(|c| c == ' ' || c == '\t')
}

/// The value of a block literal, its quotes included in `lit` (BlockStringValue in the
/// specification; lines end at LF or CR LF).
pub fn decode_block(lit: &str) -> String {
    let raw = &lit[3..lit.len() - 3];
    let mut lines: Vec<&str> = raw.split('\n').collect();
    let n = lines.len();
    for l in &mut lines[..n - 1] {
        if let Some(x) = l.strip_suffix('\r') {
            *l = x;
        }
    }
    let mut common: Option<usize> = None;
    for l in &lines[1..] {
        if !is_blank(l) {
            let ind = l.len() - l.trim_start_matches([' ', '\t']).len();
            common = Some(common.map_or(ind, |c| c.min(ind)));
        }
    }
    if let Some(c) = common {
        for l in &mut lines[1..] {
            *l = if l.len() < c { "" } else { &l[c..] };
        }
    }
    while lines.first().is_some_and(|l| is_blank(l)) {
        lines.remove(0);
    }
    while lines.last().is_some_and(|l| is_blank(l)) {
        lines.pop();
    }
    lines.join("\n").replace("\\\"\"\"", "\"\"\"")
}

/// Whether two neighbouring tokens may stand without anything ignored between them.
pub fn may_touch(a: (K, &str), b: (K, &str)) -> bool {
    let wordy = |k: K| k != K::Punct;
    match (a.0, b.0) {
        (K::Punct, K::Punct) => true,
        (K::Punct, _) => true,
        // a number swallows dots
        (K::Int, K::Punct) | (K::Float, K::Punct) => b.1 != "...",
        (_, K::Punct) => true,
        // quotes of two strings could join into others
        (K::Str, K::Str) | (K::Str, K::Block) | (K::Block, K::Str) | (K::Block, K::Block) => false,
        (K::Str, _) | (K::Block, _) => true,
        (_, K::Str) | (_, K::Block) => true,
        (x, y) => !(wordy(x) && wordy(y)),
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn spec_examples() {
        assert_eq!(decode_block("\"\"\"\n    Hello,\n      World!\n\n    Yours,\n      GraphQL.\n  \"\"\""), "Hello,\n  World!\n\nYours,\n  GraphQL.");
        assert_eq!(decode_block("\"\"\"\"\"\""), "");
        assert_eq!(decode_quoted("\"\\u0041\\b\"").unwrap(), "A\u{8}");
        assert_eq!(decode_quoted("\"\\u+041\""), None);
        assert_eq!(classify("1e9"), Num::Float);
        assert_eq!(classify("1e0"), Num::Bad);
        assert_eq!(classify("-0"), Num::Int);
        assert_eq!(classify("1e+"), Num::Bad);
        assert_eq!(classify("1.5E-07"), Num::Float);
    }
}
