//! C27: memory is given back, and no more is taken than the text is worth.

use super::*;
use crate::alloc::{tally, Tally};
use crate::mutate;
use crate::refprint::DEFAULT;
use graphql_parser::minify_query;
use graphql_parser::query::consume_definition;

fn c27_gen(g: &mut Gen, l: &mut Tape) -> Case {
    if l.chance(1, 300) {
        let c = work::c22_gen(g, l);
        let n = c.num("count").min(400);
        return Case::new()
            .with("lang", c.get("lang"))
            .with("before", c.get("before"))
            .with("piece", c.get("piece"))
            .with("after", c.get("after"))
            .with("count", n.to_string());
    }
    let lang = g.lang();
    let s = sty(&mut g.t);
    g.budget = g.budget.min(150);
    let text = match l.weighted(&[4, 3, 1, 3]) {
        0 => doc_text(lang, g, l, Layout::Free).1,
        1 => mutate::near_text(lang, g, l).0,
        2 => mutate::any_text(g, l).0,
        _ => {
            let mut t = work::crowd_of(lang, l);
            if l.chance(1, 4) {
                t = mutate::characters(&t, l);
            }
            t
        }
    };
    with_sty(Case::new().with("lang", lang.name()).with("text", text), s)
}

const CALLS: [&str; 9] = [
    "parse", "parse to owned strings", "consume", "minify", "format", "format, default", "clone", "debug", "into static",
];
/// Everything a call makes is dropped before it returns.
fn call(k: usize, lang: Lang, text: &str, sty: Sty, doc: &Option<Any<'static, String>>) {
    use std::hint::black_box;
    match k {
        0 => drop(black_box(parse_ref(lang, text))),
        1 => drop(black_box(parse::<String>(lang, text))),
        2 => drop(black_box(consume_definition::<&str>(text))),
        3 => drop(black_box(minify_query(text.to_string()))),
        4 => drop(black_box(doc.as_ref().map(|d| d.format(sty)))),
        5 => drop(black_box(doc.as_ref().map(|d| d.display()))),
        6 => drop(black_box(doc.clone())),
        7 => drop(black_box(doc.as_ref().map(|d| format!("{:?}", d)))),
        _ => match doc {
            Some(Any::Q(d)) => drop(black_box(d.clone().into_static())),
            Some(Any::S(d)) => drop(black_box(d.clone().into_static())),
            None => {}
        },
    }
}
fn owned(lang: Lang, text: &str) -> Option<Any<'static, String>> {
    match parse::<String>(lang, text) {
        Ok(Any::Q(d)) => Some(Any::Q(d.into_static())),
        Ok(Any::S(d)) => Some(Any::S(d.into_static())),
        Err(_) => None,
    }
}
/// What is set up once in a thread is set up now.
fn warm() {
    thread_local! { static DONE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
    if DONE.with(|d| d.replace(true)) {
        return;
    }
    for (lang, t) in [
        (Lang::Query, "query Q($a: [I!] = [1, {b: \"c\\n\"}]) @d(x: 1.5) { a: b(c: \"\"\"d\n  e\"\"\") { ... on T { f } ...G } }"),
        (Lang::Schema, "\"d\" type A implements B & C @d { a(b: I = 1): [C!]! } extend enum E { F } directive @g(h: I) on FIELD"),
        (Lang::Query, "{ a(b: 1x) }"),
        (Lang::Schema, "type %"),
    ] {
        let doc = owned(lang, t);
        for k in 0..CALLS.len() {
            call(k, lang, t, DEFAULT, &doc);
        }
    }
}

/// Of every byte of text a call may hold so many bytes, and ask for so many in all.
const PEAK: i64 = 1000;
const TOTAL: i64 = 3000;
const BASE: i64 = 32_768;

/// Of a text made n, 2n, 4n and 8n times as long in one place.
fn growth(c: &Case, o: &mut Obs) -> Verdict {
    let lang = lang_of(c);
    let mut v = Vec::new();
    for times in [1, 2, 4, 8] {
        let text = work::pumped(c, times);
        let doc = owned(lang, &text);
        v.push((0..CALLS.len()).map(|k| tally(|| call(k, lang, &text, DEFAULT, &doc)).1).collect::<Vec<_>>());
        o.nontrivial = doc.is_some();
    }
    for (k, what) in CALLS.iter().enumerate() {
        for (name, f) in [("held at a time", (|t| t.peak) as fn(&Tally) -> i64), ("taken in all", |t| t.total)] {
            let x: Vec<i64> = v.iter().map(|t| f(&t[k])).collect();
            // buffers grow by doubling, so one step alone may be too long
            let steep = |i: usize| 2 * (x[i + 2] - x[i + 1]) > 5 * (x[i + 1] - x[i]).max(x[i + 1] / 2) + 65_536;
            if steep(0) && steep(1) {
                return Err(format!("{}: bytes {} for n, 2n, 4n and 8n pieces are {:?}", what, name, x));
            }
        }
    }
    o.class("growing");
    Ok(())
}

fn c27_check(c: &Case, o: &mut Obs) -> Verdict {
    warm();
    if c.num("count") > 0 {
        return growth(c, o);
    }
    let lang = lang_of(c);
    let text = c.get("text");
    let sty = sty_of(c);
    let show = std::env::var_os("GQLV_SHOW").is_some();
    let (doc, t) = tally(|| owned(lang, text));
    let kept = |what: &str, t: &Tally| -> Verdict {
        if t.live != 0 {
            return Err(format!("{}: {} bytes are not given back", what, t.live));
        }
        Ok(())
    };
    if doc.is_none() {
        kept("parsing in vain", &t)?;
    }
    let (printed, t1) = tally(|| doc.as_ref().map_or(0, |d| d.format(sty).len().max(d.display().len())));
    kept("formatting for the first time", &t1)?;
    for (k, what) in CALLS.iter().enumerate() {
        let ((), t) = tally(|| call(k, lang, text, sty, &doc));
        kept(what, &t)?;
        let size = text.len().max(if k >= 4 { printed } else { 0 }) as i64;
        if show && size > 300 {
            eprintln!("{} {} {} {}", what.replace(' ', "_"), t.peak / size, t.total / size, size);
        }
        if k != 7 && t.peak > PEAK * size + BASE {
            return Err(format!("{}: {} bytes held at a time for a text of {}", what, t.peak, size));
        }
        if k != 7 && t.total > TOTAL * size + BASE {
            return Err(format!("{}: {} bytes taken in all for a text of {}", what, t.total, size));
        }
    }
    let ((), t2) = tally(|| drop(doc));
    if t2.live != -t.live {
        return Err(format!("a tree holds {} bytes, and gives back {}", t.live, -t2.live));
    }
    o.class(if t.live > 0 { "accepted" } else { "refused" });
    o.class_if(text.len() > 1000, "longer than 1000");
    o.nontrivial = text.len() >= 20;
    Ok(())
}

fn c27_fixed() -> Vec<Case> {
    let mut v = work::c22_fixed();
    for c in &mut v {
        for x in c.0.iter_mut().filter(|x| x.0 == "count") {
            x.1 = (x.1.parse::<usize>().unwrap_or(0) / 4).to_string();
        }
    }
    v
}

pub static C27: Prop = Prop {
    id: "C27",
    rule: "Texts of both languages, whole, damaged, and crowded with one construct; pumped texts as for C22; an allocator that counts by thread watches parsing (borrowed and owned), consuming, minifying, formatting, printing, cloning, conversion to static and dropping, each for the first time with its text: nothing may be kept, and no more be taken than so many times the text, nor more than in proportion as the text grows. Non-trivial: twenty bytes or more.",
    gen: c27_gen,
    check: c27_check,
    fixed: c27_fixed,
    quick: 300_000,
    thorough: 8_000_000,
    tapes: (500, 400),
    stack: STACK,
    cut: &["text"],
};
