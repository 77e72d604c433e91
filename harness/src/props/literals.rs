//! C09, C10: strings and numbers.

use super::*;
use crate::bignum;
use crate::known;

// ---- C09 ----

/// Where a string may stand.
const PLACES: [(Lang, &str); 11] = [
    (Lang::Query, "{a(b:@)}"),
    (Lang::Query, "query($v:S=@){a}"),
    (Lang::Query, "fragment F on T@d(b:[1 @ 2]){a}"),
    (Lang::Query, "{a(b:{c:@ d:@})}"),
    (Lang::Schema, "@ type A"),
    (Lang::Schema, "type A{@ a:Int b:Int}"),
    (Lang::Schema, "enum E{A @ B}"),
    (Lang::Schema, "input I{@ a:S=@}"),
    (Lang::Schema, "@ directive@d(@ a:S)on FIELD"),
    (Lang::Schema, "interface A{a(@ b:S={c:@}):S@x(y:@)}"),
    (Lang::Schema, "@ union U=A @ scalar B @ input C"),
];

fn c09_gen(g: &mut Gen, l: &mut Tape) -> Case {
    let place = g.t.below(PLACES.len());
    let lit = if g.t.chance(1, 2) { quoted(g) } else { block(g) };
    let mut text = String::new();
    for (i, part) in PLACES[place].1.split('@').enumerate() {
        // an @ followed by a name is a directive
        if i > 0 {
            if part.starts_with(['d', 'x']) {
                text.push('@');
            } else {
                text.push_str(&lit);
                if l.chance(1, 4) {
                    text.push_str(l.pick(&[" ", "\n", ",", "\t", "#c\n"]));
                }
            }
        }
        text.push_str(part);
    }
    Case::new().with("lang", PLACES[place].0.name()).with("text", text)
}

fn quoted(g: &mut Gen) -> String {
    if g.t.chance(1, 4) {
        let s = g.string();
        return quote(&mut g.t, &s, false);
    }
    let mut s = String::from("\"");
    let n = g.t.below(8);
    let many = if g.t.chance(1, 60) { [20, 70, 140, 300][g.t.below(4)] } else { 0 };
    for i in 0..n {
        if i == n / 2 && many > 0 {
            s.push_str(&g.t.pick(&["x", "\\n", "é", "\\u00e9", "\\\"", " ", "\\\\"]).repeat(many));
        }
        match g.t.weighted(&[3, 5, 4, 1]) {
            0 => match g.chr() {
                '"' | '\\' | '\n' => s.push('x'),
                c => s.push(c),
            },
            1 => {
                s.push('\\');
                s.push(*g.t.pick(&['"', '\\', '/', 'b', 'f', 'n', 'r', 't']));
            }
            2 => {
                s.push_str("\\u");
                match g.t.weighted(&[8, 3, 3, 1]) {
                    0 => {
                        let v = match g.t.below(4) {
                            0 => g.t.below(0x100),
                            1 => g.t.below(0x10000),
                            2 => *g.t.pick(&[0, 8, 0x10, 0x20, 0x22, 0x5c, 0x7f, 0xff, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xffff]),
                            _ => 0xd7f0 + g.t.below(0x820),
                        };
                        let h = format!("{:04x}", v);
                        let up = g.t.chance(1, 2);
                        s.push_str(&if up { h.to_uppercase() } else { h });
                    }
                    1 => {
                        let k = g.t.below(4);
                        for _ in 0..k {
                            s.push(*g.t.pick(&['0', '9', 'a', 'F']));
                        }
                    }
                    2 => {
                        for _ in 0..4 {
                            s.push(*g.t.pick(&['0', '4', '1', 'f', '+', '-', 'g', ' ', '_', 'x', 'é']));
                        }
                    }
                    _ => s.push_str("{41}"),
                }
            }
            _ => {
                s.push('\\');
                match g.chr() {
                    '\n' => s.push('q'),
                    c => s.push(c),
                }
            }
        }
    }
    s.push('"');
    s
}

fn block(g: &mut Gen) -> String {
    let mut s = String::from("\"\"\"");
    let n = g.t.below(7);
    let many = if g.t.chance(1, 60) { [20, 70, 140, 300][g.t.below(4)] } else { 0 };
    for i in 0..=n {
        if i == n / 2 && many > 0 {
            let line = *g.t.pick(&["\n", "\n   x", "\n\ty", "\n      z\\\"\"\"", "\r\n  ", "\n x", "q"]);
            s.push_str(&line.repeat(many));
        }
        if i > 0 {
            s.push_str(g.t.pick(&["\n", "\n", "\n", "\r\n", "\n\n", "\n\r\n"]));
        }
        let ind = *g.t.pick(&["", " ", "  ", "   ", "\t", " \t", "\t ", "    ", "      "]);
        s.push_str(ind);
        if g.t.chance(1, 12) {
            s.push_str(g.t.pick(&["\u{a0}", "\u{3000}", "\u{2028}", "\u{85}", "\u{b}", "\u{c}", "\u{feff}", "\u{200b}", "\r"]));
        }
        match g.t.weighted(&[5, 4, 3, 2]) {
            0 => s.push_str(g.t.pick(&["x", "word two", "é", "😀 中", "#", "{", "y  ", "z\t"])),
            1 => {}
            2 => s.push_str(g.t.pick(&["\\\"\"\"", "\"", "\"\"", "\\n", "\\\\", "\\", "\\\"", "\"x\"", "\\\"\"\"\\\"\"\"", "a\\\"\"\"b", "\"\\\"\"\"", "\\\\\"\"\"", "\\u0041"])),
            _ => s.push(g.chr()),
        }
    }
    s.push_str("\"\"\"");
    s
}

fn c09_check(c: &Case, o: &mut Obs) -> Verdict {
    let lang = lang_of(c);
    let text = c.get("text");
    let lx = lex(text);
    let strings = lx.toks.iter().filter(|t| matches!(t.kind, K::Str | K::Block)).count();
    o.nontrivial = lx.toks.iter().any(|t| (t.kind == K::Str && t.text.contains('\\')) || (t.kind == K::Block && (t.text.contains('\n') || t.text.contains('\\'))));
    o.class_if(lx.toks.iter().any(|t| t.kind == K::Str), "quoted");
    o.class_if(lx.toks.iter().any(|t| t.kind == K::Block && t.text.contains('\n')), "block of several lines");
    o.class_if(strings == 0 || lx.stop != Stop::Eof, "not terminated");
    match refparse::parse(lang, text) {
        Ok(want) => {
            o.class("accepted");
            same_tree(lang, text, &want, false)
        }
        Err(r) => match parse_doc(lang, text) {
            Err(_) => {
                o.class(if r.why == refparse::Why::Literal { "literal refused" } else { "refused otherwise" });
                Ok(())
            }
            Ok(d) => Err(format!("accepted as {:?}, though it cannot be read at {:?} ({:?})", d, r.pos, r.why)),
        },
    }
}
pub static C09: Prop = Prop {
    id: "C09",
    rule: "Quoted and block literals built from characters, escapes good and bad, quotes, backslashes, indentation and line ends, in eleven kinds of place; the value or refusal is compared with an independent decoder. Non-trivial: an escape, or a block of several lines.",
    gen: c09_gen,
    check: c09_check,
    fixed: none,
    quick: 2_400_000,
    thorough: 60_000_000,
    tapes: (120, 40),
    stack: STACK,
    cut: &["text"],
};

// ---- C10 ----

fn digits(g: &mut Gen, n: usize) -> String {
    let mut s = String::new();
    let mut x = 0u64;
    for i in 0..n {
        x = if i < 24 { g.t.raw() as u64 } else { (x * 1103515245 + 12345) & 0xffff_ffff };
        s.push((b'0' + ((x * 10) >> 32) as u8) as char);
    }
    s
}
fn length(g: &mut Gen) -> usize {
    match g.t.weighted(&[8, 3, 1]) {
        0 => g.t.below(4),
        1 => g.t.below(22),
        _ => [30, 64, 100, 310, 330, 400, 800, dict().size(&mut g.t, 800).unwrap_or(30)][g.t.below(8)],
    }
}
/// (a + b) / 2 in decimal, both non-negative with the same number of decimals
fn middle(a: &str, b: &str) -> String {
    let (da, db): (Vec<u8>, Vec<u8>) = (a.bytes().collect(), b.bytes().collect());
    let n = da.len().max(db.len());
    let pad = |d: Vec<u8>| -> Vec<u8> { [vec![b'0'; n - d.len()], d].concat() };
    let (da, db) = (pad(da), pad(db));
    let mut rem = 0u32;
    let mut out = String::new();
    for i in 0..n {
        if da[i] == b'.' {
            out.push('.');
            continue;
        }
        rem = rem * 10 + (da[i] - b'0') as u32 + (db[i] - b'0') as u32;
        let q = rem / 2;
        rem %= 2;
        out.push(char::from_digit(q.min(9), 10).unwrap());
        if q > 9 {
            // carry into what is written
            let mut v: Vec<u8> = out.into_bytes();
            let l = v.len();
            v[l - 1] = b'0' + (q - 10) as u8;
            let mut k = l - 1;
            loop {
                if k == 0 {
                    v.insert(0, b'1');
                    break;
                }
                k -= 1;
                if v[k] == b'.' {
                    continue;
                }
                if v[k] == b'9' {
                    v[k] = b'0';
                } else {
                    v[k] += 1;
                    break;
                }
            }
            out = String::from_utf8(v).unwrap();
        }
    }
    if rem == 1 {
        out.push('5');
    }
    let t = out.trim_start_matches('0');
    if t.starts_with('.') {
        format!("0{}", t)
    } else {
        t.to_string()
    }
}

fn number(g: &mut Gen) -> String {
    match g.t.weighted(&[5, 4, 6, 3, 2, 2]) {
        0 => g.int().to_string(),
        // around the limits
        1 => {
            let base: i128 = *g.t.pick(&[i64::MAX as i128, i64::MIN as i128, 0, u64::MAX as i128, i128::MAX / 3, -(1i128 << 64), 1 << 53, i32::MAX as i128]);
            let d = g.t.below(5) as i128 - 2;
            let mut s = (base + d).to_string();
            if g.t.chance(1, 8) {
                s.push_str(g.t.pick(&["0", "00", ".0", "e1", "e-1", ".5"]));
            }
            s
        }
        // assembled from parts, right or wrong
        2 => {
            let mut s = String::new();
            s.push_str(g.t.pick(&["", "", "", "-", "-", "+", "--", "."]));
            match g.t.below(6) {
                0 => s.push('0'),
                1 => {
                    s.push('0');
                    let n = length(g);
                    s.push_str(&digits(g, n));
                }
                2 => {}
                _ => {
                    s.push((b'1' + g.t.below(9) as u8) as char);
                    let n = length(g);
                    s.push_str(&digits(g, n));
                }
            }
            if g.t.chance(1, 2) {
                s.push('.');
                let n = length(g);
                s.push_str(&digits(g, n));
            }
            if g.t.chance(1, 2) {
                s.push_str(g.t.pick(&["e", "E", "e", "E", "e+", "E-", "e-", "E+", "ee", "e.", "e--"]));
                let n = match g.t.below(8) {
                    0 => 0,
                    1..=3 => 1,
                    4..=6 => 2,
                    _ => 3,
                };
                s.push_str(&digits(g, n));
            }
            if g.t.chance(1, 8) {
                s.push_str(g.t.pick(&["x", "_", "a", "e", ".", "f", "é", "-", "0", "٣", "½", "L", ".1", "E5", "+"]));
            }
            if s.is_empty() {
                s.push('0');
            }
            s
        }
        3 => {
            let x = g.float();
            float_lit(&mut g.t, x, false)
        }
        // halfway between two doubles, or a hair beside
        4 => {
            let e = g.t.below(120) as i32 - 60;
            let x = (1.0 + g.t.raw64() as f64 / 18446744073709551616.0) * 2f64.powi(e);
            let y = f64::from_bits(x.to_bits() + 1);
            let mut m = middle(&format!("{:.130}", x), &format!("{:.130}", y));
            match g.t.below(3) {
                0 => {}
                1 => m.push('1'),
                _ => {
                    // one down in the last place that is not 0
                    let i = m.rfind(|c: char| c != '0' && c != '.').unwrap_or(0);
                    let c = m.as_bytes()[i];
                    m.replace_range(i..i + 1, &((c - 1) as char).to_string());
                }
            }
            m
        }
        // very large and very small
        _ => {
            let e = 280 + g.t.below(60);
            let d = digits(g, 3);
            let tail = *g.t.pick(&["", "0", "5"]);
            format!("{}{}.{}{}e{}{}", g.t.pick(&["", "-"]), 1 + g.t.below(9), d, tail, g.t.pick(&["", "+", "-"]), e)
        }
    }
}

const FOLLOW: [&str; 32] = [
    "", " ", ",", "\n", "\r\n", "\t", "#c\n", "]", ")", "}", "{", "[", "(", "!", "$", "$v", ":", "=", "@", "|", "&", "\"a\"", "\"\"\"b\"\"\"", "\u{feff}",
    "a", "_", "...", ".", "-1", "é", "\u{0}", "'",
];

fn c10_gen(g: &mut Gen, l: &mut Tape) -> Case {
    let n = number(g);
    let f = if l.chance(1, 2) { *l.pick(&FOLLOW) } else { "" };
    let (lang, pre, post) = [
        (Lang::Query, "{a(b:", ")}"),
        (Lang::Query, "{a(b:[1 ", " 2])}"),
        (Lang::Query, "query($v:T=", "){a}"),
        (Lang::Query, "{a@d(b:{c:", "})}"),
        (Lang::Schema, "input I{a:T=", " b:T}"),
        (Lang::Schema, "type A@d(b:[", "])"),
        (Lang::Query, "{a(b:[", ""),
    ][l.below(7)];
    Case::new().with("lang", lang.name()).with("number", n.clone()).with("text", format!("{}{}{}{}", pre, n, f, post))
}

/// The literal at which the lexer stops, if it is a float of the kind the repository's own
/// test wants refused.
fn zero_exponent(text: &str) -> Option<&str> {
    let lx = lex(text);
    if lx.stop != Stop::Bad {
        return None;
    }
    let rest = &text[lx.stop_off..];
    let end = rest.find(|c: char| !(c.is_ascii_alphanumeric() || matches!(c, '-' | '+' | '.'))).unwrap_or(rest.len());
    let lit = &rest[..end];
    (classify_spec(lit) == Num::Float && is_unsigned_zero_exp(lit)).then_some(lit)
}

fn c10_check(c: &Case, o: &mut Obs) -> Verdict {
    let lang = lang_of(c);
    let text = c.get("text");
    o.nontrivial = c.get("number").len() >= 2;
    let got = parse_doc(lang, text);
    if zero_exponent(text).is_some() {
        if got.is_ok() {
            // the reading the specification asks for
            o.class("unsigned exponent with leading zero accepted");
            return Ok(());
        }
        return match known::listed("C10", "unsigned-exponent-leading-zero") {
            Some(w) => {
                o.known.push(w);
                o.nontrivial = false;
                Ok(())
            }
            None => Err("a float whose unsigned exponent starts with 0 is refused".into()),
        };
    }
    match (refparse::parse(lang, text), got) {
        (Ok(want), Ok(got)) => {
            let mut got = got.strip();
            let want = want.strip();
            if got != want {
                return Err(format!("tree differs\n  {}", diff(&got, &want)));
            }
            // the double against the literal, exactly
            let lits: Vec<&str> = lex(text).toks.iter().filter(|t| t.kind == K::Float).map(|t| t.text).collect();
            let mut floats = Vec::new();
            got.map_val(&mut |v| {
                if let Val::Float(f) = v {
                    floats.push(f.get());
                }
            });
            let mut ints = 0;
            got.map_val(&mut |v| ints += matches!(v, Val::Int(_)) as i32);
            o.class_if(ints > 0, "integer accepted");
            if lits.len() == floats.len() {
                for (l, x) in lits.iter().zip(&floats) {
                    match bignum::is_nearest(l, *x) {
                        Some(true) => o.class("float nearest"),
                        Some(false) => return Err(format!("{:?} is not the double nearest to {}", x, l)),
                        None => o.class("float too long to settle"),
                    }
                }
            }
            Ok(())
        }
        (Err(r), Err(_)) => {
            o.class(match r.why {
                refparse::Why::Literal => "out of range refused",
                refparse::Why::Lex => "bad literal refused",
                _ => "refused otherwise",
            });
            Ok(())
        }
        (Ok(_), Err(e)) => Err(format!("refused: {}", e)),
        (Err(r), Ok(d)) => Err(format!("accepted as {:?}, though it cannot be read at {:?} ({:?})", d, r.pos, r.why)),
    }
}
fn c10_fixed() -> Vec<Case> {
    ["0e0", "1e05", "-0", "0", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "1e400", "1e9", "1.0e+0"]
        .iter()
        .map(|n| Case::new().with("lang", "query").with("number", *n).with("text", format!("{{a(b:{})}}", n)))
        .collect()
}
pub static C10: Prop = Prop {
    id: "C10",
    rule: "Integers, floats and near-numbers (limits, long digit strings, halfway points between doubles, bad exponents, leading zeros) in seven kinds of place and before every kind of character; acceptance and value are compared with an independent reading, floats by exact arithmetic. Non-trivial: two characters or more.",
    gen: c10_gen,
    check: c10_check,
    fixed: c10_fixed,
    quick: 2_400_000,
    thorough: 60_000_000,
    tapes: (60, 20),
    stack: STACK,
    cut: &["text"],
};
