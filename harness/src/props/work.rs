//! C22: work in proportion to the text.

use super::*;
use graphql_parser::minify_query;
use graphql_parser::query::consume_definition;
use std::os::unix::process::CommandExt;
use std::path::PathBuf;
use std::process::{Command, Stdio};

/// Constructs that texts can be long of: language, before, the piece, after. A `%` in a
/// piece becomes its number. `k`: how many of the smallest text.
struct Family {
    lang: Lang,
    pre: &'static str,
    piece: &'static str,
    post: &'static str,
    k: usize,
}
const TOK: usize = 2000;
const CHR: usize = 20_000;
macro_rules! q {
    ($($k:ident $a:expr, $b:expr, $c:expr;)*) => { [$(Family { lang: Lang::Query, pre: $a, piece: $b, post: $c, k: $k },)*] };
}
macro_rules! s {
    ($($k:ident $a:expr, $b:expr, $c:expr;)*) => { [$(Family { lang: Lang::Schema, pre: $a, piece: $b, post: $c, k: $k },)*] };
}
const QUERY: [Family; 85] = q! {
    TOK "{", "a% ", "}";
    TOK "{", "b%:a ", "}";
    TOK "{", "a{b}", "}";
    TOK "{a(", "x%:1 ", ")}";
    TOK "{a(x:[", "1 ", "])}";
    TOK "{a(x:[", "1.5 ", "])}";
    TOK "{a(x:[", "\"s\" ", "])}";
    TOK "{a(x:[", "\"\"\"s\"\"\" ", "])}";
    TOK "{a(x:[", "A% ", "])}";
    TOK "{a(x:[", "$v ", "])}";
    TOK "{a(x:[", "true null ", "])}";
    TOK "{a(x:[", "[] ", "])}";
    TOK "{a(x:[", "[[[[1]]]] ", "])}";
    TOK "{a(x:[", "{} ", "])}";
    TOK "{a(x:[", "{y:1} ", "])}";
    TOK "{a(x:{", "y%:1 ", "})}";
    TOK "{a(x:{", "y:1 ", "})}";
    TOK "{a", "@d% ", "}";
    TOK "{a @d(", "x%:1 ", ")}";
    TOK "{", "...F% ", "}";
    TOK "{", "...{a} ", "}";
    TOK "{", "...on T{a} ", "}";
    TOK "{...F", "@d ", "}";
    TOK "{...", "@d ", "{a}}";
    TOK "query(", "$v%:T ", "){a}";
    TOK "query(", "$v%:[T!]!=[1] ", "){a}";
    TOK "query($v:T=[", "1 ", "]){a}";
    TOK "query($v:T={", "y%:1 ", "}){a}";
    TOK "mutation M(", "$v%:T ", "){a}";
    TOK "subscription S(", "$v%:T ", "){a}";
    TOK "query Q ", "@d ", "{a}";
    TOK "", "query{a}", "";
    TOK "", "query Q%{a}", "";
    TOK "", "mutation{a}", "";
    TOK "", "subscription S{a}", "";
    TOK "", "fragment F% on T{a}", "";
    TOK "", "{a}", "";
    TOK "fragment F on T ", "@d ", "{a}";
    TOK "{", "a(b:1) ", "}";
    TOK "{", "a%@d(b:1) ", "}";
    TOK "{", "a(b:\"s\") ", "}";
    TOK "{", "a:b(c:[1] d:{e:1}){f} ", "}";
    TOK "{", "...F@d(b:1) ", "}";
    TOK "{", "...on T@d(b:1){a} ", "}";
    TOK "", "query Q%($a:[A!]=[1] $b:B)@d(e:$a){a(b:$b)}", "";
    CHR "{", "a", "}";
    CHR "query ", "Q", "{a}";
    CHR "{a(x:$", "v", ")}";
    CHR "{a(x:1.", "5", ")}";
    CHR "{a(x:0.", "0", "1)}";
    CHR "{a(x:\"", "s", "\")}";
    CHR "{a(x:\"", "\\n", "\")}";
    CHR "{a(x:\"", "\\u00e9", "\")}";
    CHR "{a(x:\"", "\\\"", "\")}";
    CHR "{a(x:\"", "é", "\")}";
    CHR "{a(x:\"", "\u{1}", "\")}";
    CHR "{a(x:\"\"\"", "s", "\"\"\")}";
    CHR "{a(x:\"\"\"", " s\n", "\"\"\")}";
    CHR "{a(x:\"\"\"x", "\n", "y\"\"\")}";
    CHR "{a(x:\"\"\"", "\\\"\"\" ", "\"\"\")}";
    CHR "{a(x:\"\"\"", "é\r\n", "\"\"\")}";
    CHR "{a(x:\"\"\"", " ", "x\"\"\")}";
    CHR "{a(x:\"\"\"\n", "s", "\"\"\")b}";
    CHR "{a(x:\"\"\"\n ", "é", "\"\"\"){b}}";
    CHR "\n{\n", ",\t", "b@d}";
    CHR "#", "x", "\n{a}";
    CHR "{a ", "#\r\n", "}";
    CHR "{a ", "\n\n#", "\n}";
    CHR "{a ", " #x\n", "}";
    CHR "{a\n", "\t \n", "b}";
    CHR "{a ", "\r\n,\u{feff}", "}";
    CHR "{a(x:\"", "\\\\", "\")}";
    CHR "{a(x:\"", "\\/ ", "\")}";
    CHR "{a(x:\"", "#é\t", "\")}";
    CHR "{a(x:\"\"\"", "\\", " \"\"\")}";
    CHR "{a(x:\"\"\"", "\" ", "\"\"\")}";
    CHR "{a(x:\"\"\"", "\"\" a\n\n", "\"\"\")}";
    CHR "{a(x:\"\"\"", "\n\t", "x\"\"\")}";
    CHR "{a(x:\"\"\"x", "\r", "\"\"\")}";
    CHR "{a(x:\"\"\"\n", "#\\\"\"\"\n", "\"\"\")}";
    CHR "{a ", " ", "}";
    CHR "{a ", "\n", "}";
    CHR "{a", ",", "b}";
    CHR "{a}", "\u{feff}\t\r", "";
    TOK "{a}", "#é\n", "";
};
const SCHEMA: [Family; 55] = s! {
    TOK "", "scalar S% ", "";
    TOK "", "type T% ", "";
    TOK "", "type T%{a:A}", "";
    TOK "", "interface I%{a:A}", "";
    TOK "", "union U%=A|B ", "";
    TOK "", "enum E%{A B}", "";
    TOK "", "input I%{a:A=1}", "";
    TOK "", "directive@d% on FIELD ", "";
    TOK "", "schema{query:Q}", "";
    TOK "", "extend type T%@d ", "";
    TOK "", "extend scalar S%@d ", "";
    TOK "", "extend union S%=A ", "";
    TOK "", "\"d\"scalar S% ", "";
    TOK "", "\"\"\"d\ne\"\"\"type T% ", "";
    TOK "type T{", "a%:A ", "}";
    TOK "type T{", "a%:[A!]! ", "}";
    TOK "type T{", "a%(b:B=1):A ", "}";
    TOK "type T{", "\"d\"a%:A ", "}";
    TOK "type T{", "\"\"\"d\n e\"\"\"a%:A ", "}";
    TOK "type T{a(", "b%:B ", "):A}";
    TOK "type T{a(", "\"d\"b%:B=2 ", "):A}";
    TOK "type T{a:A", "@d ", "}";
    TOK "type T ", "@d ", "{a:A}";
    TOK "type T implements A", "&A%", "";
    TOK "type T implements ", "A% ", "{a:A}";
    TOK "interface T implements A", "&A%", "{a:A}";
    TOK "extend type T implements A", "&A%", "";
    TOK "interface I{", "a%:A ", "}";
    TOK "union U=A", "|A%", "";
    TOK "union U ", "@d ", "=A";
    TOK "extend union U=A", "|A%", "";
    TOK "enum E{", "A% ", "}";
    TOK "enum E{", "\"d\"A%@d ", "}";
    TOK "extend enum E{", "A% ", "}";
    TOK "input I{", "a%:A ", "}";
    TOK "input I{", "a%:A={b:[1]} ", "}";
    TOK "extend input I{", "a%:A ", "}";
    TOK "directive@d(", "a%:A ", ")on FIELD";
    TOK "directive@d on FIELD", "|QUERY", "";
    TOK "schema ", "@d ", "{query:Q}";
    TOK "scalar S@d(", "x%:1 ", ")";
    TOK "type T{", "a(b:B):[A]!@d(c:1) ", "}";
    TOK "type T{a(", "b%:[B!]=[1]@d(c:1) ", "):A}";
    TOK "enum E{", "A%@d(b:1) ", "}";
    TOK "input I{", "a%:[A]=\"s\"@d(b:1) ", "}";
    TOK "", "scalar S%@d(a:1) ", "";
    TOK "", "directive@d%(a:A=1)repeatable on FIELD|QUERY ", "";
    TOK "", "type T% implements A&B@d(a:1){a(b:B):A}", "";
    CHR "type ", "T", "{a:A}";
    CHR "\"", "s", "\"scalar S";
    CHR "\"\"\"", "é\n", "\"\"\"scalar S";
    CHR "type T{\"\"\"\n", "é", "\"\"\"a:A b:B}";
    CHR "\r\ntype T{\n", " \u{feff}", "a:A@d}";
    CHR "type T{\"\"\"", "  s\n", "\"\"\"a:A}";
    CHR "#", "x", "\nscalar S";
};
/// Refused, after having been read to the end.
const REFUSED: [Family; 10] = q! {
    TOK "{", "a% ", "";
    TOK "{", "a ", "!";
    TOK "", "{a}", "}";
    TOK "{a(x:[", "1 ", ")}";
    CHR "{a(x:\"", "s", "";
    CHR "{a(x:\"\"\"", "\\\"\"\"", "";
    CHR "{a(x:\"\"\"", "\" ", "";
    CHR "{a(x:1", "0", ")}";
    CHR "{a(x:\"", "s", "\\q\")}";
    CHR "#", "x", "";
};

/// A document out of one of the constructs, short enough for other purposes.
pub fn crowd_of(lang: Lang, l: &mut Tape) -> String {
    let from: &[Family] = if lang == Lang::Query { &QUERY } else { &SCHEMA };
    let f = &from[l.below(from.len())];
    let n = [1, 2, 7, 30, 60, 120][l.below(6)];
    let c = Case::new().with("before", f.pre).with("piece", f.piece).with("after", f.post).with("count", n.to_string());
    pumped(&c, 1)
}

fn family(f: &Family) -> Case {
    Case::new()
        .with("lang", f.lang.name())
        .with("before", f.pre)
        .with("piece", f.piece)
        .with("after", f.post)
        .with("count", f.k.to_string())
}
pub fn c22_fixed() -> Vec<Case> {
    let deep = DEEP.iter().filter(|d| d.each == 1).map(|d| {
        let c = Case::new().with("lang", d.lang.name()).with("before", d.pre).with("piece", d.open).with("inside", d.mid);
        c.with("close", d.close).with("after", d.post).with("count", "12")
    });
    QUERY.iter().chain(&SCHEMA).chain(&REFUSED).map(family).chain(deep).collect()
}

/// Sizes past what small counters hold, and past what tests are written for.
const SIZES: [usize; 7] = [70, 130, 270, 1_100, 4_500, 33_000, 66_000];
/// Longest big text, in bytes.
const BIG: usize = 600_000;

/// A long document: many of something, between shorter ones.
pub fn big(lang: Lang, g: &mut Gen, l: &mut Tape) -> String {
    let n = match dict().size(l, 200_000) {
        Some(n) if l.chance(1, 4) => n,
        _ => SIZES[l.weighted(&[6, 4, 6, 4, 2, 1, 3])],
    };
    let from: &[Family] = if lang == Lang::Query { &QUERY } else { &SCHEMA };
    let c = if l.chance(1, 3) { pump(lang, g, l) } else { family(&from[l.below(from.len())]) };
    // what can be there twice may not be there more often
    let mut text = [c, family(&from[0])]
        .into_iter()
        .map(|mut c| {
            sized(&mut c, n, BIG);
            pumped(&c, 1)
        })
        .find(|t| refparse::parse(lang, t).is_ok())
        .expect("a long document");
    for before in [true, false] {
        if l.chance(1, 2) {
            g.budget = 40;
            let mut d = g.doc(lang);
            let (r, _) = write_doc(&mut d, l, Layout::Free);
            let both = if before { format!("{}\n{}", r.text, text) } else { format!("{}\n{}", text, r.text) };
            if refparse::parse(lang, &both).is_ok() {
                text = both;
            }
        }
    }
    text
}
fn sized(c: &mut Case, n: usize, most: usize) {
    let piece = c.get("piece").len() + if c.get("piece").contains('%') { 5 } else { 0 };
    let n = n.min(most / piece.max(1)).max(1);
    for x in c.0.iter_mut().filter(|x| x.0 == "count") {
        x.1 = n.to_string();
    }
}
/// The same with something wrong in it.
pub fn near_big(lang: Lang, g: &mut Gen, l: &mut Tape) -> String {
    let mut text = big(lang, g, l);
    match l.weighted(&[4, 2, 2, 2]) {
        0 => {
            text.push('\n');
            text.push_str(l.pick(&WRONG));
        }
        1 => text.truncate(text.char_indices().rev().nth(l.below(40)).map_or(0, |x| x.0)),
        2 => text = crate::mutate::characters(&text, l),
        _ => {
            let toks = lex(&text).toks;
            if let Some(t) = toks.get(l.below(toks.len().max(1))) {
                let (a, b) = (t.start, t.start + t.text.len());
                text.replace_range(a..b, l.pick(&["", "!", "{", ")", "1", "@", "on", "\"s\""]));
            }
        }
    }
    text
}
const WRONG: [&str; 16] = [")", ";", "\u{0}", "}", "@", "\"", "1x", "{", ":", "%", "\"\"\"", "a", "...", "-", "é", "="];

const SWEPT: [usize; 11] = [255, 256, 257, 300, 511, 512, 513, 1023, 1024, 1025, 66_000];
/// Documents that are tried every time: so many of every construct, and brackets so deep.
pub fn big_texts(lang: Lang) -> Vec<String> {
    let from: &[Family] = if lang == Lang::Query { &QUERY } else { &SCHEMA };
    let mut v = Vec::new();
    for n in (1..=130).chain(SWEPT).chain(dict().sizes(131, 200_000).into_iter().filter(|n| !SWEPT.contains(n))) {
        for f in from {
            let mut c = family(f);
            sized(&mut c, n, 2 * BIG);
            v.push(pumped(&c, 1));
        }
    }
    for d in DEEP.iter().filter(|d| d.lang == lang) {
        for n in 1..=LIMIT {
            let times = (n - 1) / d.each;
            v.push(format!("{}{}{}{}{}", d.pre, d.open.repeat(times), d.mid, d.close.repeat(times), d.post));
        }
    }
    v.dedup();
    v
}
struct Deep {
    lang: Lang,
    pre: &'static str,
    open: &'static str,
    mid: &'static str,
    close: &'static str,
    post: &'static str,
    each: usize,
}
macro_rules! deep {
    ($($l:ident $pre:expr, $open:expr, $mid:expr, $close:expr, $post:expr, $each:expr;)*) => {
        [$(Deep { lang: Lang::$l, pre: $pre, open: $open, mid: $mid, close: $close, post: $post, each: $each },)*]
    };
}
const DEEP: [Deep; 31] = deep! {
    Query "{", "a{", "b", "}", "}", 1;
    Query "{", "x a:b{", "c", "} y", "}", 1;
    Query "{", "a(b:1 c:\"d\")@e{", "f", "}", "}", 1;
    Query "{", "...{", "a", "}", "}", 1;
    Query "{", "...on T@d{", "a ...F", "}", "}", 1;
    Query "query Q($v:[T!]=[1]){", "a{...{", "b", "}}", "}", 2;
    Query "mutation M@d{", "a{", "b(c:$v)", "}", "}", 1;
    Query "subscription{", "a{b ", "c", "}", "}", 1;
    Query "fragment F on T{", "a{", "b", "}c", "}", 1;
    Query "{a(b:", "[", "1", "]", ")}", 1;
    Query "{a(b:", "[1 ", "\"s\"", " E]", ")}", 1;
    Query "{a(b:", "{c:", "1.5", "}", ")}", 1;
    Query "{a(b:", "{c:[", "$v", "] d:{}}", " e:2)}", 2;
    Query "{a(b:", "[{c:", "\"\"\"x\ny\"\"\"", "}]", ")}", 2;
    Query "{a@d(b:", "[", "null", "]", ")@e}", 1;
    Query "query($v:", "[", "T", "]", "){a}", 1;
    Query "query($v:", "[", "T!", "]!", "=1 $w:T){a}", 1;
    Query "query($v:T=", "[", "1", "]", "){a}", 1;
    Query "query($v:T=", "{a:", "\"s\\n\"", " b:[]}", "){a}", 1;
    Query "query Q@d(a:", "{b:[", "true", "]}", "){a}", 2;
    Query "fragment F on T@d(a:", "[", "E", "]", "){a}", 1;
    Schema "type T{a:", "[", "B", "]", " b:C}", 1;
    Schema "type T{a:", "[", "B!", "]!", "@d}", 1;
    Schema "input I{a:T=", "[", "1", "]", "}", 1;
    Schema "input I{a:T=", "{b:", "\"s\"", " c:[1]}", " d:E}", 1;
    Schema "interface I{a(b:T=", "[{c:", "1", "}]", "):T}", 2;
    Schema "type T{\"d\"a(b:", "[", "B", "]", "@d):C}", 1;
    Schema "scalar S@d(a:", "[", "1", "]", ")", 1;
    Schema "extend enum E{A@d(a:", "{b:", "E", "}", ")B}", 1;
    Schema "directive@d(a:", "[", "T", "]", "=[[1]])on FIELD", 1;
    Schema "directive@d(a:T=", "[", "1", "]", ")on FIELD|QUERY", 1;
};
/// The same as cases.
pub fn big_cases(langs: &[Lang], field: &'static str) -> Vec<Case> {
    langs.iter().flat_map(|l| big_texts(*l).into_iter().map(|t| Case::new().with("lang", l.name()).with(field, t))).collect()
}
pub fn big_styled(langs: &[Lang], field: &'static str) -> Vec<Case> {
    let styles = [(2, false), (0, true), (3, true), (2, true), (1, false), (8, true), (33, false)];
    let cases = big_cases(langs, field).into_iter();
    cases.enumerate().map(|(i, c)| with_sty(c, { let (indent, multi) = styles[i % 7]; Sty { indent, multi } })).collect()
}
/// And with something wrong at the end.
pub fn big_wrong(langs: &[Lang]) -> Vec<Case> {
    let texts = langs.iter().flat_map(|l| big_texts(*l).into_iter().map(move |t| (*l, t)));
    texts.enumerate().map(|(i, (l, t))| Case::new().with("lang", l.name()).with("text", format!("{}\n {}", t, WRONG[(i + i / 16) % WRONG.len()]))).collect()
}

/// A generated document, repeated from one place in it to another where that leaves a
/// document.
pub fn c22_gen(g: &mut Gen, l: &mut Tape) -> Case {
    let lang = g.lang();
    if l.chance(1, 2) {
        fill(lang, g, l)
    } else {
        pump(lang, g, l)
    }
}
/// A document filled with ignored characters between two tokens, or with characters within
/// a comment, a string or a block string.
fn fill(lang: Lang, g: &mut Gen, l: &mut Tape) -> Case {
    g.budget = 4 + g.t.below(12) as i32;
    let mut d = g.doc(lang);
    let (r, _) = write_doc(&mut d, l, Layout::Plain);
    let toks = lex(&r.text).toks;
    let at = toks.get(l.below(toks.len() + 1)).map_or(r.text.len(), |t| t.start);
    let (pre, post) = r.text.split_at(at);
    let ignored = [" ", "\n", "\r\n", "\t", ",", "\u{feff}", "#\n", "#x\r\n", "# \"é\n", "\n\n", "\r"];
    let quoted = ["a", " ", "\\n", "\\\"", "\\\\", "\\u0041", "\\/", "é", "😀", "#", "{", ",", "\t", "\u{1}", "'"];
    let block = ["a", " ", "\n", "\\\"\"\"", "\" ", "\"\"a", "\\ ", "é", "#", "\t", "\r\n", "\r", "\n\n", "\n  ", "}"];
    let mut run = |from: &[&'static str]| -> String { (0..1 + l.few(5)).map(|_| *l.pick(from)).collect() };
    let (before, piece, after) = match g.t.below(4) {
        0 => (format!("{} ", pre), run(&ignored), format!("\n{}", post)),
        1 => (format!("{} #", pre), run(&quoted), format!("\n{}", post)),
        k => {
            let (a, z) = if lang == Lang::Query { ("{a(b: ", ")}") } else { ("type T {", " a: A} ") };
            if k == 2 {
                (format!("{} {}\"", pre, a), run(&quoted), format!("\"{} {}", z, post))
            } else {
                (format!("{} {}\"\"\"", pre, a), run(&block), format!(" \"\"\"{} {}", z, post))
            }
        }
    };
    if piece.contains('%') || before.contains('%') || after.contains('%') {
        return family(&QUERY[0]);
    }
    let count = (CHR / piece.len()).max(TOK);
    Case::new().with("lang", lang.name()).with("before", before).with("piece", piece).with("after", after).with("count", count.to_string())
}
fn pump(lang: Lang, g: &mut Gen, l: &mut Tape) -> Case {
    g.budget = 6 + g.t.below(20) as i32;
    let mut d = g.doc(lang);
    let (r, _) = write_doc(&mut d, l, Layout::Plain);
    let toks = lex(&r.text).toks;
    let cut = |i: usize| toks.get(i).map_or(r.text.len(), |t| t.start);
    for _ in 0..60 {
        let i = l.below(toks.len());
        let n = 1 + l.few(12).min(toks.len() - i - 1);
        let (a, b) = (cut(i), cut(i + n));
        let (pre, piece, post) = (&r.text[..a], &r.text[a..b], &r.text[b..]);
        let piece = format!("{} ", piece);
        if piece.contains('%') || pre.contains('%') || post.contains('%') {
            continue;
        }
        let twice = format!("{}{}{}{}", pre, piece, piece, post);
        if refparse::parse(lang, &twice).is_ok() {
            return Case::new()
                .with("lang", lang.name())
                .with("before", pre)
                .with("piece", piece)
                .with("after", post)
                .with("count", (TOK / n).max(50).to_string());
        }
    }
    let from: &[Family] = if lang == Lang::Query { &QUERY } else { &SCHEMA };
    family(&from[l.below(from.len())])
}

pub fn pumped(c: &Case, times: usize) -> String {
    pumped_to(c, c.num("count") * times)
}
fn pumped_to(c: &Case, count: usize) -> String {
    let mut s = c.get("before").to_string();
    let piece = c.get("piece");
    let numbered = piece.contains('%');
    for i in 0..count {
        if numbered {
            s.push_str(&piece.replace('%', &format!("{:06}", i)));
        } else {
            s.push_str(piece);
        }
    }
    s.push_str(c.get("inside"));
    s.push_str(&c.get("close").repeat(count));
    s.push_str(c.get("after"));
    s
}

const OPS: [&str; 5] = ["parse", "consume", "minify", "format", "format, multiline arguments"];

/// The part that is counted.
#[no_mangle]
#[inline(never)]
pub extern "C" fn gqlv_work(op: usize, lang: bool, text: &&str, doc: Option<&Any<'static, String>>) -> bool {
    let lang = if lang { Lang::Query } else { Lang::Schema };
    std::hint::black_box(match op {
        0 => parse_ref(lang, text).is_ok(),
        1 => consume_definition::<&str>(text).is_ok(),
        2 => minify_query(text.to_string()).is_ok(),
        3 => doc.is_some_and(|d| !d.format_default().is_empty()),
        _ => doc.is_some_and(|d| !d.format(Sty { indent: 2, multi: true }).is_empty()),
    })
}

/// Run under callgrind: every call, in order, with the outcome on stdout.
pub fn measure(c: &Case, counts: &[usize]) {
    let lang = lang_of(c);
    // consuming does what parsing does with the same definition: a third of the cases is enough
    let consume = lang == Lang::Query && (c.get("before").is_empty() || c.get("piece").len() % 3 == 0);
    let start = std::time::Instant::now();
    for (i, count) in counts.iter().copied().enumerate() {
        if i == 3 && start.elapsed().as_secs() >= 15 {
            return;
        }
        let text = pumped_to(c, count);
        let stat: &'static str = Box::leak(text.clone().into_boxed_str());
        let doc = parse::<String>(lang, stat).ok();
        for op in 0..OPS.len() {
            if op == 1 && !consume || (op == 3 || op == 4) && doc.is_none() {
                continue;
            }
            let ok = gqlv_work(op, lang == Lang::Query, &&text[..], doc.as_ref());
            println!("{} {} {} {}", op, count, ok as u8, text.len());
        }
        std::mem::forget(doc);
    }
}

extern "C" {
    fn prctl(option: i32, arg: u64, ...) -> i32;
}

/// Call, how many of the piece, accepted, bytes, instructions.
type Work = (usize, usize, bool, usize, u64);
fn count(c: &Case, counts: &[usize]) -> Result<Vec<Work>, String> {
    static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let k = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    let dir: PathBuf = std::env::temp_dir().join(format!("gqlv-work-{}-{}", std::process::id(), k));
    let bad = |e: String| format!("harness: {}", e);
    std::fs::create_dir_all(&dir).map_err(|e| bad(e.to_string()))?;
    let r = (|| {
        let file = dir.join("case");
        std::fs::write(&file, crate::json::object(&c.0)).map_err(|e| bad(e.to_string()))?;
        let mut command = Command::new("valgrind");
        // the measurement ends with whoever wanted it
        unsafe { command.pre_exec(|| if prctl(1, 9) == 0 { Ok(()) } else { Err(std::io::Error::last_os_error()) }) };
        let out = command
            .arg("--tool=callgrind")
            .arg("--toggle-collect=gqlv_work")
            .arg("--dump-after=gqlv_work")
            .arg(format!("--callgrind-out-file={}", dir.join("cg").display()))
            .arg(std::env::current_exe().map_err(|e| bad(e.to_string()))?)
            .arg("work")
            .arg(&file)
            .args(counts.iter().map(|n| n.to_string()))
            // string instructions would be counted byte by byte
            .env("GLIBC_TUNABLES", "glibc.cpu.x86_rep_movsb_threshold=0x7fffffffffffffff:glibc.cpu.x86_rep_stosb_threshold=0x7fffffffffffffff")
            .stdin(Stdio::null())
            .stderr(Stdio::piped())
            .output()
            .map_err(|e| bad(format!("valgrind: {}", e)))?;
        if !out.status.success() {
            return Err(bad(format!("measuring ended with {}: {}", out.status, String::from_utf8_lossy(&out.stderr))));
        }
        let mut v = Vec::new();
        for (i, line) in String::from_utf8_lossy(&out.stdout).lines().enumerate() {
            let n: Vec<usize> = line.split(' ').map(|x| x.parse().unwrap_or(usize::MAX)).collect();
            let dump = std::fs::read_to_string(dir.join(format!("cg.{}", i + 1))).map_err(|e| bad(format!("dump {}: {}", i + 1, e)))?;
            let total = dump
                .lines()
                .rev()
                .find_map(|l| l.strip_prefix("totals: ").or(l.strip_prefix("summary: ")))
                .and_then(|x| x.trim().parse().ok())
                .ok_or_else(|| bad("no total in dump".into()))?;
            v.push((n[0], n[1], n[2] == 1, n[3], total));
        }
        Ok(v)
    })();
    let _ = std::fs::remove_dir_all(&dir);
    r
}

fn c22_check(c: &Case, o: &mut Obs) -> Verdict {
    let n = c.num("count");
    // small ones first, so that what takes forever is found before it does
    let plans: &[&[usize]] = if c.get("close").is_empty() {
        &[&[n / 16, n / 8, n / 4, n, 2 * n, 4 * n], &[n, 2 * n, 4 * n]]
    } else {
        &[&[n / 4, n / 2, n], &[n / 2, n, 2 * n], &[n, 2 * n, 4 * n]]
    };
    let (mut v, mut most) = (vec![], 0);
    for plan in plans {
        // otherwise the small ones grew as they should and were slow all the same
        if !v.iter().any(|x: &Work| x.1 == 4 * n) {
            v = count(c, plan)?;
            most = judge_growth(c, &v, o)?;
        }
    }
    o.class_if(v.iter().any(|x| x.0 == 0 && x.2), "accepted");
    o.nontrivial = most > 1_000_000;
    Ok(())
}
fn judge_growth(c: &Case, v: &[Work], o: &mut Obs) -> Result<u64, String> {
    let mut most = 0;
    for op in 0..OPS.len() {
        let all: Vec<_> = v.iter().filter(|x| x.0 == op).collect();
        for w in all.chunks_exact(3) {
            let (a, b, d) = (w[0].4 as f64, w[1].4 as f64, w[2].4 as f64);
            most = most.max(w[2].4);
            let (first, second) = ((b - a).max(b / 2.0), d - b);
            if std::env::var_os("GQLV_SHOW").is_some() {
                eprintln!("{:?} {:?} {}: {} {} bytes, {} instructions, ratio {:.3}", c.get("before"), c.get("piece"), OPS[op], w[2].2, w[2].3, w[2].4, second / first);
            }
            // twice the text again: twice the work again, with room for n log n, and for
            // buffers that happen to be moved as they grow
            if second > 2.5 * first + w[2].3 as f64 / 4.0 + 100_000.0 {
                return Err(format!(
                    "{}: {} bytes take {} instructions, {} bytes {}, {} bytes {}",
                    OPS[op], w[0].3, w[0].4, w[1].3, w[1].4, w[2].3, w[2].4
                ));
            }
            o.class(OPS[op]);
        }
    }
    Ok(most)
}

pub static C22: Prop = Prop {
    id: "C22",
    rule: "Texts pumped at one place: a list of constructs, things nested in each other up to the limit of depth, generated documents with a repeatable stretch, and runs of ignored characters or of what fills a comment, string or block; repeated n, 2n and 4n times, after smaller counts that show what grows too fast to wait for. Instructions of each call are counted by callgrind; from 2n to 4n they may grow at most 2.5 times as much as from n to 2n (2 is proportional, 4 quadratic), plus a small allowance for moved buffers. Non-trivial: some call takes a million instructions.",
    gen: c22_gen,
    check: c22_check,
    fixed: c22_fixed,
    quick: 128,
    thorough: 4_000,
    tapes: (300, 300),
    stack: STACK,
    cut: &[],
};
