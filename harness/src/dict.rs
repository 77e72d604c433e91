//! The dictionary: what the source of the crate mentions. A value that code compares with
//! is a value worth trying, as fuzzers know; so the words, strings, characters and numbers
//! written in /repo/src take part in the generation of names, texts, lengths and counts.
//! Nothing is judged by it.

use crate::gen::Tape;
use std::collections::BTreeSet;
use std::path::{Path, PathBuf};
use std::sync::OnceLock;

#[derive(Default)]
pub struct Dict {
    /// could be names
    pub words: Vec<String>,
    /// those of them that are not generated anyway
    rare: Vec<String>,
    /// everything between quotation marks
    pub strings: Vec<String>,
    pub chars: Vec<char>,
    /// from 2 on
    pub nums: Vec<i64>,
}

pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let mut files = Vec::new();
        find(&repo().join("src"), &mut files);
        files.sort();
        let mut all = Found::default();
        for f in files {
            let text = std::fs::read_to_string(f).unwrap_or_default();
            scan(text.split("#[cfg(test)]").next().unwrap_or(""), &mut all);
        }
        let words: Vec<String> = all.strings.iter().filter(|s| is_name(s)).cloned().collect();
        Dict {
            rare: words.iter().filter(|w| !crate::gen::usual_name(w)).cloned().collect(),
            words,
            strings: all.strings.into_iter().collect(),
            chars: all.chars.into_iter().collect(),
            nums: all.nums.into_iter().collect(),
        }
    })
}
/// The crate under test, as the manifest of this one names it.
fn repo() -> PathBuf {
    let manifest = std::fs::read_to_string(concat!(env!("CARGO_MANIFEST_DIR"), "/Cargo.toml")).unwrap_or_default();
    let line = manifest.lines().find(|l| l.starts_with("graphql-parser")).unwrap_or("");
    let path = line.split("path = \"").nth(1).and_then(|l| l.split('"').next()).unwrap_or("/repo");
    Path::new(env!("CARGO_MANIFEST_DIR")).join(path)
}
fn find(dir: &Path, out: &mut Vec<PathBuf>) {
    for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        let p = e.path();
        if p.is_dir() {
            find(&p, out);
        } else if p.extension().map_or(false, |x| x == "rs") {
            out.push(p);
        }
    }
}
fn is_name(s: &str) -> bool {
    s.len() < 100 && s.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_') && s.chars().all(|c| c.is_ascii_alphanumeric() || c == '_')
}

#[derive(Default)]
struct Found {
    strings: BTreeSet<String>,
    chars: BTreeSet<char>,
    nums: BTreeSet<i64>,
}

/// A rough lexer of Rust; what it gets wrong is a poorer dictionary and no more.
fn scan(src: &str, out: &mut Found) {
    let c: Vec<char> = src.chars().collect();
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    let mut i = 0;
    let mut shift: Option<i64> = None;
    while i < c.len() {
        let word = i > 0 && (c[i - 1].is_alphanumeric() || c[i - 1] == '_');
        match c[i] {
            '/' if at(i + 1) == '/' => {
                while i < c.len() && c[i] != '\n' {
                    i += 1;
                }
            }
            '/' if at(i + 1) == '*' => {
                i += 2;
                while i < c.len() && !(c[i] == '*' && at(i + 1) == '/') {
                    i += 1;
                }
            }
            'r' if !word && (at(i + 1) == '"' || at(i + 1) == '#') => {
                let mut h = 0;
                while at(i + 1 + h) == '#' {
                    h += 1;
                }
                if at(i + 1 + h) == '"' {
                    let from = i + 2 + h;
                    let mut to = from;
                    while to < c.len() && !(c[to] == '"' && (1..=h).all(|k| at(to + k) == '#')) {
                        to += 1;
                    }
                    string(c[from..to].iter().collect(), out);
                    i = to + h;
                }
            }
            '"' => {
                let mut s = String::new();
                i += 1;
                while i < c.len() && c[i] != '"' {
                    if c[i] == '\\' {
                        if let Some(x) = escape(&c, &mut i) {
                            s.push(x);
                        }
                    } else {
                        s.push(c[i]);
                        i += 1;
                    }
                }
                string(s, out);
            }
            '\'' if at(i + 1) == '\\' => {
                i += 1;
                if let Some(x) = escape(&c, &mut i) {
                    out.chars.insert(x);
                }
            }
            '\'' if at(i + 2) == '\'' => {
                out.chars.insert(at(i + 1));
                i += 2;
            }
            d if d.is_ascii_digit() && !word => {
                let mut s = String::new();
                while at(i).is_ascii_alphanumeric() || at(i) == '_' {
                    s.push(at(i));
                    i += 1;
                }
                if let Some(n) = number(&s) {
                    number_found(n, out);
                    if let Some(by) = shift.take() {
                        number_found(by.checked_shl(n as u32).unwrap_or(0), out);
                    }
                    let rest: String = c[i..(i + 4).min(c.len())].iter().collect();
                    if rest.trim_start().starts_with("<<") {
                        shift = Some(n);
                    }
                }
                continue;
            }
            _ => {}
        }
        i += 1;
    }
}
/// From a backslash to behind the escape.
fn escape(c: &[char], i: &mut usize) -> Option<char> {
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    *i += 2;
    Some(match at(*i - 1) {
        'n' => '\n',
        'r' => '\r',
        't' => '\t',
        '0' => '\0',
        'x' => {
            let s: String = [at(*i), at(*i + 1)].iter().collect();
            *i += 2;
            char::from_u32(u32::from_str_radix(&s, 16).ok()?)?
        }
        'u' => {
            let s: String = c[(*i).min(c.len())..].iter().skip(1).take_while(|x| **x != '}').filter(|x| **x != '_').collect();
            *i += s.len() + 2;
            char::from_u32(u32::from_str_radix(&s, 16).ok()?)?
        }
        '\n' => {
            while at(*i).is_whitespace() {
                *i += 1;
            }
            return None;
        }
        x => x,
    })
}
fn string(s: String, out: &mut Found) {
    if !s.is_empty() && s.len() <= 100 {
        let mut k = s.chars();
        if let (Some(x), None) = (k.next(), k.next()) {
            out.chars.insert(x);
        }
        out.strings.insert(s);
    }
}
fn number(s: &str) -> Option<i64> {
    let s = s.replace('_', "");
    if let Some(h) = s.strip_prefix("0x") {
        let end = h.find(|c: char| !c.is_ascii_hexdigit()).unwrap_or(h.len());
        return i64::from_str_radix(&h[..end], 16).ok();
    }
    let end = s.find(|c: char| !c.is_ascii_digit()).unwrap_or(s.len());
    s[..end].parse().ok()
}
fn number_found(n: i64, out: &mut Found) {
    if n >= 2 {
        out.nums.insert(n);
    }
}

impl Dict {
    /// A name the source mentions, or one much like it.
    pub fn word(&self, t: &mut Tape) -> Option<String> {
        if self.words.is_empty() {
            return None;
        }
        let w = if !self.rare.is_empty() && t.chance(1, 2) { t.pick(&self.rare).clone() } else { t.pick(&self.words).clone() };
        Some(match t.below(8) {
            0..=3 => w,
            4 => format!("{}{}", w, ["x", "_", "1", "Name"][t.below(4)]),
            5 => format!("{}{}", ["x", "_", "my", "__"][t.below(4)], w),
            6 => w.to_uppercase(),
            _ => w[..1].to_uppercase() + &w[1..],
        })
    }
    /// Characters the source mentions, perhaps with others around.
    pub fn string(&self, t: &mut Tape) -> Option<String> {
        let one = |t: &mut Tape| match t.below(3) {
            0 if !self.chars.is_empty() => Some(t.pick(&self.chars).to_string()),
            _ if !self.strings.is_empty() => Some(t.pick(&self.strings).clone()),
            _ => None,
        };
        let s = one(t)?;
        Some(match t.below(6) {
            0 | 1 => s,
            2 => format!("a{}", s),
            3 => format!("{}b", s),
            4 => format!("a {} b", s),
            _ => s + &one(t)?,
        })
    }
    /// A number the source mentions or its neighbour, up to `max`.
    pub fn size(&self, t: &mut Tape, max: usize) -> Option<usize> {
        let end = self.nums.partition_point(|n| *n <= max as i64);
        let n = self.nums[..end].get(t.below(end))?;
        Some((*n as usize + t.below(3)).saturating_sub(1).min(max))
    }
    /// The same for counts that are all tried: those up to `max` and their neighbours.
    pub fn sizes(&self, from: usize, max: usize) -> Vec<usize> {
        let all: BTreeSet<usize> =
            self.nums.iter().filter(|n| **n <= max as i64).flat_map(|n| [*n as usize - 1, *n as usize, *n as usize + 1]).filter(|n| *n >= from).collect();
        // the tree has few; a tree with many of them gets some
        all.into_iter().take(24).collect()
    }
}
