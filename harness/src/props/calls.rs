//! C21: histories of calls.

use super::*;
use crate::mutate;
use graphql_parser::minify_query;
use graphql_parser::query::consume_definition;
use std::io::Write;
use std::sync::{Arc, Barrier, OnceLock};

const KEYS: [&str; 24] = [
    "00", "01", "02", "03", "04", "05", "06", "07", "08", "09", "10", "11", "12", "13", "14", "15", "16", "17", "18", "19", "20", "21",
    "22", "23",
];
const KINDS: [&str; 7] = ["query", "schema", "consume", "minify", "format query", "format schema", "build"];

/// A place in memory that text after text is put into.
struct Buffer(String);
impl Buffer {
    fn new(specs: &[String]) -> Buffer {
        Buffer(String::with_capacity(specs.iter().map(|s| s.len()).max().unwrap_or(0)))
    }
    fn call(&mut self, spec: &str) -> String {
        self.0.clear();
        // the text begins where all the others do
        let at = spec.match_indices('\n').nth(1).map_or(spec.len(), |x| x.0 + 1);
        self.0.push_str(&spec[at..]);
        call_on(&spec[..at], &self.0)
    }
}

/// One call, everything it yields written out. `spec` is "kind\nindent multiline\ntext".
pub fn call(spec: &str) -> String {
    call_on(spec, spec.splitn(3, '\n').nth(2).unwrap_or(""))
}
fn call_on(spec: &str, text: &str) -> String {
    let mut it = spec.splitn(3, '\n');
    let kind = it.next().unwrap_or("");
    let st = it.next().unwrap_or("2 0");
    let (i, m) = st.split_once(' ').unwrap_or(("2", "0"));
    let sty = Sty { indent: i.parse().unwrap_or(2), multi: m == "1" };
    let r = quietly(|| match kind {
        "query" | "schema" => match parse_ref(Lang::from_name(kind), text) {
            Ok(d) => format!("{:?}", d),
            Err(e) => format!("error {}", e),
        },
        "consume" => match consume_definition::<&str>(text) {
            Ok((d, rest)) => format!("{:?} then {:?}", d, rest),
            Err(e) => format!("error {}", e),
        },
        "minify" => match minify_query(text.to_string()) {
            Ok(s) => s,
            Err(e) => format!("error {}", e),
        },
        "format query" | "format schema" => match parse::<String>(Lang::from_name(&kind[7..]), text) {
            Ok(d) => format!("{}\n{}", d.format(sty), d.display()),
            Err(e) => format!("error {}", e),
        },
        // a tree from elsewhere: the crate only prints it
        _ => match refparse::parse(Lang::Query, text).ok().and_then(|d| crate::lower::raise(&d)) {
            Some(crate::lower::Raised::Q(d)) => d.format(&style(sty)),
            _ => String::new(),
        },
    });
    r.unwrap_or_else(|| "panic".into())
}

/// As long as `t` and different in a few characters, or in their order.
fn sibling(t: &str, l: &mut Tape) -> String {
    let mut b = t.as_bytes().to_vec();
    let at: Vec<usize> = (0..b.len()).filter(|i| b[*i].is_ascii_alphanumeric()).collect();
    if at.is_empty() {
        return t.to_string();
    }
    if l.chance(1, 3) {
        // the same characters in another order
        let ascii: Vec<usize> = (0..b.len()).filter(|i| b[*i].is_ascii()).collect();
        let (i, j) = if l.chance(1, 2) { (at[l.below(at.len())], at[l.below(at.len())]) } else { (ascii[l.below(ascii.len())], ascii[l.below(ascii.len())]) };
        b.swap(i, j);
        return String::from_utf8(b).unwrap_or_else(|_| t.to_string());
    }
    for _ in 0..1 + l.few(4) {
        let i = at[l.below(at.len())];
        let from: &[u8] = match b[i] {
            b'0'..=b'9' => b"123456789",
            b'A'..=b'Z' => b"ABCDXYZ",
            _ => b"abcdxyz",
        };
        b[i] = from[l.below(from.len())];
    }
    String::from_utf8(b).unwrap_or_else(|_| t.to_string())
}

fn tiny(l: &mut Tape) -> String {
    const AROUND: [&str; 12] = [
        "{@}", "scalar @", "{a(b: @)}", "query @ {a}", "{...@}", "{a(b: \"@\")}", "type T{a: @}", "enum E{@}", "{a @@}", "union U = @", "\"@\" scalar S",
        "fragment F on @{a}",
    ];
    let n = [1, 3, 8, 13, 17, 24, 33, 65][l.below(8)];
    let name: String = (0..n).map(|_| *l.pick(&['a', 'b', 'c', 'x', 'T', '_'])).collect();
    l.pick(&AROUND).replacen('@', if l.chance(1, 8) { "1" } else { &name }, 1).replace('@', "@d")
}

fn c21_gen(g: &mut Gen, l: &mut Tape) -> Case {
    let n = 2 + l.below(KEYS.len() - 2);
    let mut c = Case::new()
        .with("threads", (1 + l.below(8)).to_string())
        .with("pristine", if l.chance(1, 60) { "1" } else { "0" });
    let mut texts: Vec<String> = Vec::new();
    for k in KEYS.iter().take(n) {
        // the same texts come again under other calls
        let text = if !texts.is_empty() && l.chance(1, 3) {
            let t = texts[l.below(texts.len())].clone();
            if l.chance(1, 2) && t.len() > 60 {
                t
            } else {
                sibling(&t, l)
            }
        } else {
            g.budget = 4 + l.below(20) as i32;
            let t = match l.weighted(&[5, 3, 1, 1, 2]) {
                // little besides a name or a literal
                4 => tiny(l),
                0 => {
                    let lang = g.lang();
                    let mut d = g.doc(lang);
                    write_doc(&mut d, l, Layout::Free).0.text
                }
                1 => {
                    let lang = g.lang();
                    mutate::near_text(lang, g, l).0
                }
                2 => {
                    let d = 40 + l.below(20);
                    format!("{}a{}", "{a".repeat(d).replace("{a{a", "{a {a"), "}".repeat(if l.chance(1, 2) { d } else { 3 }))
                }
                _ => mutate::chars(l),
            };
            texts.push(t.clone());
            t
        };
        let mut s = sty(l);
        if text.len() < 300 && l.chance(1, 12) {
            s.indent = [300, 513, 1025, 2049, dict().size(l, 3000).unwrap_or(1500) as u32][l.below(5)];
        }
        c = c.with(k, format!("{}\n{} {}\n{}", l.pick(&KINDS), s.indent, s.multi as u8, text));
    }
    c
}

/// Calls answered before anything else happened in this process.
pub fn canaries() -> &'static Vec<(String, String)> {
    static C: OnceLock<Vec<(String, String)>> = OnceLock::new();
    C.get_or_init(|| {
        let q = "query Q($a: [Int!] = [1, {b: \"c\"}]) @d(x: 1.5) { a: b(c: \"\"\"d\n  e\"\"\") { ... on T { f } ...G } }";
        let s = "\"d\" type A implements B & C @d { a(b: Int = 1): [C!]! } extend enum E { F } directive @g(h: I) repeatable on FIELD | QUERY";
        let mut v = Vec::new();
        for k in KINDS {
            for t in [q, s, "{a}", "", "{ a(b: 1x) }"] {
                let spec = format!("{}\n3 1\n{}", k, t);
                let r = call(&spec);
                v.push((spec, r));
            }
        }
        v
    })
}

fn pristine(spec: &str) -> Result<String, String> {
    let exe = std::env::current_exe().map_err(|e| format!("harness: {}", e))?;
    let mut p = std::process::Command::new(exe)
        .arg("call")
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn()
        .map_err(|e| format!("harness: {}", e))?;
    p.stdin.take().unwrap().write_all(spec.as_bytes()).map_err(|e| format!("harness: {}", e))?;
    let out = p.wait_with_output().map_err(|e| format!("harness: {}", e))?;
    if !out.status.success() {
        return Err(format!("harness: call in a process of its own ended with {}", out.status));
    }
    String::from_utf8(out.stdout).map_err(|e| format!("harness: {}", e))
}

fn c21_check(c: &Case, o: &mut Obs) -> Verdict {
    let can = canaries();
    let specs: Vec<String> = c.0.iter().filter(|x| x.0.len() == 2 && x.0.as_bytes()[0].is_ascii_digit()).map(|x| x.1.clone()).collect();
    if specs.is_empty() {
        return Ok(());
    }
    let alone = c.get("pristine") == "1";
    // each call by itself: in a thread, or even a process, that has seen nothing
    let mut want = Vec::new();
    for s in &specs {
        want.push(if alone {
            pristine(s)?
        } else {
            let s = s.clone();
            std::thread::Builder::new().stack_size(STACK).spawn(move || call(&s)).unwrap().join().map_err(|_| "thread died")?
        });
    }
    let differ = |how: &str, i: usize, got: &str| -> Verdict {
        if got != want[i] {
            return Err(format!("{}: call {} ({:?}) yields\n  {}\n  where alone it yields\n  {}", how, i, specs[i], clip(got), clip(&want[i])));
        }
        Ok(())
    };
    // one after another, backwards, and each one twice
    for i in 0..specs.len() {
        differ("in sequence", i, &call(&specs[i]))?;
    }
    // from one place in memory
    let mut buf = Buffer::new(&specs);
    for i in 0..specs.len() {
        differ("from the same buffer", i, &buf.call(&specs[i]))?;
    }
    for i in (0..specs.len()).rev() {
        differ("backwards", i, &call(&specs[i]))?;
        differ("at once again", i, &call(&specs[i]))?;
    }
    // several threads at a time
    let n = c.num("threads").clamp(1, 16);
    if n > 1 {
        let specs2 = Arc::new(specs.clone());
        let bar = Arc::new(Barrier::new(n));
        let hs: Vec<_> = (0..n)
            .map(|k| {
                let (specs, bar) = (specs2.clone(), bar.clone());
                std::thread::Builder::new()
                    .stack_size(STACK)
                    .spawn(move || {
                        bar.wait();
                        let m = specs.len();
                        (0..m).map(|i| ((i + k * 3) % m, call(&specs[(i + k * 3) % m]))).collect::<Vec<_>>()
                    })
                    .unwrap()
            })
            .collect();
        for h in hs {
            for (i, got) in h.join().map_err(|_| "thread died")? {
                differ("beside other threads", i, &got)?;
            }
        }
        o.class("several threads");
    }
    for (spec, first) in can {
        let got = call(spec);
        if got != *first {
            return Err(format!("by now, {:?} yields\n  {}\n  where at first it yielded\n  {}", spec, clip(&got), clip(first)));
        }
    }
    o.class_if(alone, "compared with processes of their own");
    let errors = want.iter().filter(|w| w.starts_with("error")).count();
    o.class_if(errors > 0, "with failing calls");
    o.class_if(errors < want.len(), "with succeeding calls");
    o.nontrivial = specs.len() >= 4 && errors > 0 && errors < want.len();
    Ok(())
}
fn clip(s: &str) -> String {
    s.chars().take(400).collect()
}
pub static C21: Prop = Prop {
    id: "C21",
    rule: "Histories of 2 to 24 calls (parse, consume, minify, format, of good and bad texts, texts recurring, whole and with single characters changed or neighbours exchanged, long single names, styles as wide as 3000), run in sequence, from one reused buffer, backwards, repeated and on up to 8 threads at once; each call's full outcome must be the one it has alone in a fresh thread, in one case of sixty in a fresh process, and fixed calls must answer as they did first in the process. Non-trivial: four calls or more, some failing and some not.",
    gen: c21_gen,
    check: c21_check,
    fixed: none,
    quick: 12_000,
    thorough: 300_000,
    tapes: (900, 900),
    stack: STACK,
    cut: &["00", "01", "02", "03", "04", "05", "06", "07"],
};
