//! C11, C12, C13: where things are, and what lies between them.

use super::*;
use crate::mutate;
use crate::refprint::DEFAULT;
use graphql_parser::minify_query;

// ---- C11 ----

fn c11_gen(g: &mut Gen, l: &mut Tape) -> Case {
    let lang = g.lang();
    let (_, text) = doc_text(lang, g, l, Layout::Free);
    Case::new().with("lang", lang.name()).with("text", text)
}
fn c11_check(c: &Case, o: &mut Obs) -> Verdict {
    let lang = lang_of(c);
    let text = c.get("text");
    let lx = lex(text);
    let want = match refparse::parse(lang, text) {
        Ok(d) if !lx.lone_cr => d,
        _ => return Ok(()),
    };
    same_tree(lang, text, &want, true)?;
    doc_classes(text, &want, o);
    o.class_if(text.contains('\t'), "tab");
    o.class_if(text.contains("\r\n"), "CR LF");
    o.class_if(text.contains('\u{feff}'), "byte order mark");
    o.class_if(text.contains('#'), "number sign");
    o.class_if(!text.is_ascii(), "not ASCII");
    o.class_if(lx.toks.iter().any(|t| t.kind == K::Block && t.text.contains('\n')), "string over several lines");
    o.nontrivial = lx.toks.len() >= 6 && (text.contains('\n') || text.contains('\t') || !text.is_ascii());
    Ok(())
}
fn c11_fixed() -> Vec<Case> {
    work::big_cases(&[Lang::Query, Lang::Schema], "text")
}
pub static C11: Prop = Prop {
    id: "C11",
    rule: "Documents of both languages in free layout (spaces, tabs, commas, comments, LF and CR LF, byte order marks, multi-byte characters, strings over several lines); every position in the tree is compared with the one worked out while the text was written. Non-trivial: six tokens or more and a line end, tab or multi-byte character.",
    gen: c11_gen,
    check: c11_check,
    fixed: c11_fixed,
    quick: 1_200_000,
    thorough: 30_000_000,
    tapes: (400, 700),
    stack: STACK,
    cut: &["text"],
};

// ---- C12 ----

fn c12_gen(g: &mut Gen, l: &mut Tape) -> Case {
    g.budget = g.budget.min(60);
    let lang = g.lang();
    let (text, _) = mutate::near_text(lang, g, l);
    Case::new().with("lang", lang.name()).with("text", text)
}
/// The first "line:column" in a message.
fn place(msg: &str) -> Option<P> {
    let b = msg.as_bytes();
    for i in 0..b.len() {
        if b[i] == b':' && i > 0 && b[i - 1].is_ascii_digit() && b.get(i + 1).is_some_and(|c| c.is_ascii_digit()) {
            let s = (0..i).rev().take_while(|k| b[*k].is_ascii_digit()).last()?;
            let e = (i + 1..b.len()).take_while(|k| b[*k].is_ascii_digit()).last()? + 1;
            return Some(P(msg[s..i].parse().ok()?, msg[i + 1..e].parse().ok()?));
        }
    }
    None
}
fn c12_check(c: &Case, o: &mut Obs) -> Verdict {
    let lang = lang_of(c);
    let text = c.get("text");
    let lx = lex(text);
    let r = match refparse::parse(lang, text) {
        Err(r) if !lx.lone_cr && r.why != refparse::Why::TooDeep => r,
        _ => {
            o.class("accepted or beyond the limit");
            return Ok(());
        }
    };
    let e = match parse_doc(lang, text) {
        Err(e) => e,
        // C04 and C05 are about this
        Ok(_) => return Ok(()),
    };
    let prefix = format!("{} parse error", lang.name());
    if !e.starts_with(&prefix) {
        return Err(format!("the error does not start with {:?}: {:?}", prefix, e));
    }
    match place(&e) {
        Some(p) if p == r.pos => {}
        p => return Err(format!("the error names {:?} where the first wrong place is {:?} ({:?}): {:?}", p, r.pos, r.why, e)),
    }
    o.class(match r.why {
        refparse::Why::Token => "wrong token",
        refparse::Why::End => "end of text",
        refparse::Why::Lex => "no token",
        refparse::Why::Literal => "literal",
        refparse::Why::Whole => "definition as a whole",
        refparse::Why::TooDeep => unreachable!(),
    });
    o.class_if(r.pos.0 > 1, "beyond the first line");
    o.nontrivial = r.pos != P(1, 1);
    Ok(())
}
fn c12_fixed() -> Vec<Case> {
    work::big_wrong(&[Lang::Query, Lang::Schema])
}
pub static C12: Prop = Prop {
    id: "C12",
    rule: "Damaged documents of both languages (as for C04); the language and the line and column named by the error are compared with where the reference parser, reading left to right one token ahead, has to stop. Non-trivial: the text is refused beyond its first token.",
    gen: c12_gen,
    check: c12_check,
    fixed: c12_fixed,
    quick: 2_000_000,
    thorough: 50_000_000,
    tapes: (250, 300),
    stack: STACK,
    cut: &["text"],
};

// ---- C13 ----

/// The same tokens with other ignored characters; what follows an illegal character
/// stays as it is.
fn relayout(text: &str, t: &mut Tape) -> String {
    let lx = lex(text);
    let toks: Vec<ETok> = lx.toks.iter().map(|k| ETok { kind: k.kind, text: k.text.to_string() }).collect();
    let layout = [Layout::FreeCr, Layout::Free, Layout::Plain][t.below(3)];
    let mut s = render(&toks, t, layout).text;
    if lx.stop != Stop::Eof {
        // a line end, since the last thing written may be a comment
        s.push('\n');
        s.push_str(&text[lx.stop_off..]);
    }
    s
}
fn c13_gen(g: &mut Gen, l: &mut Tape) -> Case {
    let lang = g.lang();
    g.budget = g.budget.min(150);
    let text = match l.weighted(&[5, 4, 1]) {
        0 => doc_text(lang, g, l, Layout::FreeCr).1,
        1 => mutate::near_text(lang, g, l).0,
        _ => mutate::any_text(g, l).0,
    };
    let other = relayout(&text, l);
    Case::new().with("lang", lang.name()).with("text", text).with("other", other)
}
fn c13_check(c: &Case, o: &mut Obs) -> Verdict {
    let lang = lang_of(c);
    let (a, b) = (c.get("text"), c.get("other"));
    let (la, lb) = (lex(a), lex(b));
    // still the same tokens, and the same rest
    if la.toks.len() != lb.toks.len() || la.stop != lb.stop || la.toks.iter().zip(&lb.toks).any(|(x, y)| x.text != y.text) {
        o.class("cut apart");
        return Ok(());
    }
    if a[la.stop_off..] != b[lb.stop_off..] {
        return Ok(());
    }
    match (parse_ref(lang, a), parse_ref(lang, b)) {
        (Ok(x), Ok(y)) => {
            let (tx, ty) = (x.lower().strip(), y.lower().strip());
            if tx != ty {
                return Err(format!("the tree depends on ignored characters\n  {}", diff(&tx, &ty)));
            }
            if x.format(DEFAULT) != y.format(DEFAULT) {
                return Err("the formatted text depends on ignored characters".into());
            }
            o.class("accepted");
        }
        (Err(x), Err(y)) => {
            let (x, y) = (errors::head(lang, &x).map(|h| h.1.to_string()), errors::head(lang, &y).map(|h| h.1.to_string()));
            // what a lone carriage return does to positions is not settled
            if x != y && !la.lone_cr && !lb.lone_cr {
                return Err(format!("the error depends on ignored characters: {:?} and {:?}", x, y));
            }
            o.class("refused")
        }
        (Ok(_), Err(e)) => return Err(format!("accepted, but refused with other ignored characters: {}", e)),
        (Err(e), Ok(_)) => return Err(format!("refused ({}), but accepted with other ignored characters", e)),
    }
    match (minify_query(a.to_string()), minify_query(b.to_string())) {
        (Ok(x), Ok(y)) if x == y => o.class("minified"),
        (Err(_), Err(_)) => {}
        (x, y) => return Err(format!("minifying depends on ignored characters: {:?} and {:?}", x.map_err(|e| e.to_string()), y.map_err(|e| e.to_string()))),
    }
    o.class_if(la.lone_cr || lb.lone_cr, "CR alone");
    o.nontrivial = a != b && la.toks.len() >= 4;
    Ok(())
}
fn c13_fixed() -> Vec<Case> {
    work::big_cases(&[Lang::Query, Lang::Schema], "text")
        .into_iter()
        .map(|c| {
            // every token on a line of its own
            let other: Vec<&str> = lex(c.get("text")).toks.iter().map(|t| t.text).collect();
            let other = other.join("\r\n");
            c.with("other", other)
        })
        .collect()
}
pub static C13: Prop = Prop {
    id: "C13",
    rule: "Texts, whole or damaged, and the same tokens with other ignored characters between them (also carriage returns alone); verdict, tree, formatted and minified text must agree. Non-trivial: four tokens or more and the two texts differ.",
    gen: c13_gen,
    check: c13_check,
    fixed: c13_fixed,
    quick: 900_000,
    thorough: 22_500_000,
    tapes: (400, 900),
    stack: STACK,
    cut: &["other", "text"],
};
