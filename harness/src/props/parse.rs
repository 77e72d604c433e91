//! C01 to C05: what is accepted, and as what.

use super::*;
use crate::mutate;
use crate::refprint::DEFAULT;
use graphql_parser::query::{consume_definition, minify_query};

// ---- C01 ----

fn c01_gen(g: &mut Gen, l: &mut Tape) -> Case {
    let s = sty(&mut g.t);
    let (text, _) = mutate::any_text(g, l);
    with_sty(Case::new().with("text", text), s)
}

fn c01_check(c: &Case, o: &mut Obs) -> Verdict {
    let text = c.get("text");
    let sty = sty_of(c);
    let mut accepted = false;
    for lang in [Lang::Query, Lang::Schema] {
        match parse_ref(lang, text) {
            Ok(d) => {
                accepted = true;
                o.class(if lang == Lang::Query { "accepted as query" } else { "accepted as schema" });
                let _ = d.format(sty);
                let _ = d.format(DEFAULT);
                let _ = d.display();
                super::format::print_parts(&d);
                let _ = format!("{:?}", d);
                match parse::<String>(lang, text)? {
                    Any::Q(d) => drop(d.into_static()),
                    Any::S(d) => drop(d.into_static()),
                }
            }
            Err(e) => {
                if e.is_empty() {
                    return Err("an error without a message".into());
                }
            }
        }
    }
    if let Ok((d, _)) = consume_definition::<&str>(text) {
        let _ = d.to_string();
        o.class("definition consumed");
    }
    o.class_if(minify_query(text.to_string()).is_ok(), "minified");
    let lx = lex(text);
    o.class_if(!accepted, "refused");
    o.class_if(!text.is_ascii(), "not ASCII");
    o.nontrivial = lx.toks.len() >= 3 && (accepted || lx.toks.len() >= 4);
    Ok(())
}

fn c01_fixed() -> Vec<Case> {
    work::big_styled(&[Lang::Query, Lang::Schema], "text")
}
pub static C01: Prop = Prop {
    id: "C01",
    rule: "Texts: whole documents of both languages, the same damaged by token or character edits, token soup, and arbitrary characters; every entry point is run on each and all results printed in all ways. Non-trivial: at least three tokens when accepted, four when refused.",
    gen: c01_gen,
    check: c01_check,
    fixed: c01_fixed,
    quick: 800_000,
    thorough: 20_000_000,
    tapes: (500, 500),
    stack: SMALL_STACK,
    cut: &["text"],
};

// ---- C02, C03 ----

fn doc_gen(lang: Lang, g: &mut Gen, l: &mut Tape) -> Case {
    if l.chance(1, 6) {
        // documents that came about by editing others
        let (text, _) = mutate::near_text(lang, g, l);
        return Case::new().with("text", text);
    }
    let (_, text) = doc_text(lang, g, l, Layout::Free);
    Case::new().with("text", text)
}
fn tree_check(lang: Lang, c: &Case, o: &mut Obs) -> Verdict {
    let text = c.get("text");
    let want = match refparse::parse(lang, text) {
        Ok(d) => d,
        Err(_) => {
            o.class("edited, no document any more");
            return Ok(());
        }
    };
    same_tree(lang, text, &want, false)?;
    doc_classes(text, &want, o);
    o.nontrivial = lex(text).toks.len() >= 6;
    Ok(())
}
fn c02_gen(g: &mut Gen, l: &mut Tape) -> Case {
    doc_gen(Lang::Query, g, l)
}
fn c02_check(c: &Case, o: &mut Obs) -> Verdict {
    tree_check(Lang::Query, c, o)
}
fn c03_gen(g: &mut Gen, l: &mut Tape) -> Case {
    doc_gen(Lang::Schema, g, l)
}
fn c03_check(c: &Case, o: &mut Obs) -> Verdict {
    tree_check(Lang::Schema, c, o)
}

fn c02_fixed() -> Vec<Case> {
    work::big_cases(&[Lang::Query], "text")
}
pub static C02: Prop = Prop {
    id: "C02",
    rule: "Query documents generated as trees, then written with random spelling and layout; the parsed tree is compared, field by field, with the generated one; one case in six is a document after edits, its tree told by the reference parser. Non-trivial: six tokens or more.",
    gen: c02_gen,
    check: c02_check,
    fixed: c02_fixed,
    quick: 1_000_000,
    thorough: 25_000_000,
    tapes: (700, 400),
    stack: STACK,
    cut: &["text"],
};
fn c03_fixed() -> Vec<Case> {
    work::big_cases(&[Lang::Schema], "text")
}
pub static C03: Prop = Prop {
    id: "C03",
    rule: "Schema documents generated as trees, then written with random spelling and layout; the parsed tree is compared, field by field, with the generated one; one case in six is a document after edits, its tree told by the reference parser. Non-trivial: six tokens or more.",
    gen: c03_gen,
    check: c03_check,
    fixed: c03_fixed,
    quick: 1_000_000,
    thorough: 25_000_000,
    tapes: (900, 400),
    stack: STACK,
    cut: &["text"],
};

// ---- C04, C05 ----

fn verdict_check(lang: Lang, c: &Case, o: &mut Obs) -> Verdict {
    let text = c.get("text");
    let want = refparse::parse(lang, text);
    let got = parse_doc(lang, text);
    o.nontrivial = lex(text).toks.len() >= 3;
    match (got, want) {
        (Err(_), Err(r)) => {
            o.class("refused");
            o.class(match r.why {
                refparse::Why::Token => "refused: token",
                refparse::Why::End => "refused: end",
                refparse::Why::Lex => "refused: no token",
                refparse::Why::TooDeep => "refused: depth",
                refparse::Why::Literal => "refused: literal",
                refparse::Why::Whole => "refused: as a whole",
            });
            Ok(())
        }
        (Ok(got), Ok(want)) => {
            o.class("accepted");
            let (got, want) = (got.strip(), want.strip());
            if got != want {
                return Err(format!("accepted, but the tree is not what the text says\n  {}", diff(&got, &want)));
            }
            Ok(())
        }
        (Ok(got), Err(r)) => Err(format!("accepted as {:?} although it is wrong at {:?} ({:?})", got, r.pos, r.why)),
        // C02 and C03 are about this
        (Err(_), Ok(_)) => {
            o.class("refused although a document");
            Ok(())
        }
    }
}
fn near_gen(lang: Lang, g: &mut Gen, l: &mut Tape) -> Case {
    g.budget = g.budget.min(60);
    let (text, _) = mutate::near_text(lang, g, l);
    Case::new().with("text", text)
}
fn c04_gen(g: &mut Gen, l: &mut Tape) -> Case {
    if l.chance(1, 5) {
        return Case::new().with("text", query_rules(g, l));
    }
    near_gen(Lang::Query, g, l)
}
fn c04_check(c: &Case, o: &mut Obs) -> Verdict {
    verdict_check(Lang::Query, c, o)
}
fn c05_gen(g: &mut Gen, l: &mut Tape) -> Case {
    if l.chance(1, 4) {
        return Case::new().with("text", schema_rules(g, l));
    }
    near_gen(Lang::Schema, g, l)
}
fn c05_check(c: &Case, o: &mut Obs) -> Verdict {
    verdict_check(Lang::Schema, c, o)
}

/// Short texts, each around one production of the query grammar.
fn query_rules(g: &mut Gen, t: &mut Tape) -> String {
    let n = g.name();
    let some = |t: &mut Tape, v: &[&str]| t.pick(v).to_string();
    fn value(t: &mut Tape, deep: usize) -> String {
        const V: [&str; 22] = [
            "1", "$v", "A", "true", "null", "\"s\"", "1.5", "[]", "{}", "\"\"\"b\"\"\"", "$", "$1", "$$v", "$ v", "", "{a}", "{a: }", "{: 1}", "(1)", "...", "@d", "{\"a\": 1}",
        ];
        if deep > 0 && t.chance(1, 2) {
            let n = 1 + t.below(2);
            let items: Vec<String> = (0..n).map(|_| value(t, deep - 1)).collect();
            match t.below(2) {
                0 => format!("[{}]", items.join(" ")),
                _ => format!("{{{}}}", items.iter().enumerate().map(|(i, v)| format!("k{}: {}", i, v)).collect::<Vec<_>>().join(", ")),
            }
        } else {
            // mostly what is fine somewhere
            let k = if t.chance(1, 8) { V.len() } else { 10 };
            t.pick(&V[..k]).to_string()
        }
    }
    let dirs = some(t, &["", "", "", "@d", "@d(a: 1)", "@d()", "@", "@d @e", "@d(a: $v)", "@ d", "d", "@d @"]);
    let body = match t.below(5) {
        // operations
        0 => {
            let k = some(t, &["query", "mutation", "subscription", "query", "Query", "QUERY", "queries", "fragment", ""]);
            let vars = some(t, &["", "", "($a: Int)", "()", "($a)", "(a: Int)", "($a: Int $b: [B!]! = [1])", "($a Int)", "($a: )", "($: Int)", "($a: Int,)", "(($a: Int))", "($a: Int = )", "($a: Int @d)"]);
            let name = some(t, &["", &n, &n, "on", "\"n\"", "1", "A B"]);
            format!("{} {}{} {} {}", k, name, vars, dirs, some(t, &["{a}", "{a}", "{a}", "{}", "", "{{a}}", "{a}}", "{a", "a"]))
        }
        // default values are constant all the way down
        1 => format!("query q($a: {} = {}) {{ a }}", some(t, &["Int", "[Int]", "T!"]), value(t, 3)),
        // arguments
        2 => {
            let a = value(t, 3);
            let args = match t.below(8) {
                0 => String::new(),
                1 => "()".into(),
                2 => format!("({})", a),
                3 => format!("(a {})", a),
                4 => format!("(a: {} b: 2)", a),
                5 => format!("(a: {}", a),
                _ => format!("(a: {})", a),
            };
            if t.chance(1, 3) {
                format!("{{ {} @d{} }}", n, args)
            } else {
                format!("{{ {}{} }}", n, args)
            }
        }
        // selections
        3 => {
            let k = 1 + t.below(3);
            let sels: Vec<String> = (0..k)
                .map(|_| {
                    let s = some(t, &[
                        "a", "a: b", "a: b: c", "a:", ": a", "...", "... on", "... on A", "... on A { b }", "... { b }", "...A", "...on", "...A { b }",
                        "... on A on B { b }", "... @d { b }", "... @d", "...A @d", "a { b }", "a { }", "a: b(c: 1) @d { e }", "a @d (c: 1)", "a { b } @d", "\"a\"", "1", "$a", "on",
                        "... on $a { b }", ".. a", "... ... a", "query", "{ a }", "a b: c", "!", "a!", "&", "= 1", "a = 1",
                    ]);
                    format!("{} {}", s, if t.chance(1, 8) { &dirs[..] } else { "" })
                })
                .collect();
            format!("{{ {} }}", sels.join(" "))
        }
        // fragments
        _ => {
            let name = some(t, &[&n, &n, "on", "", "A B", "\"A\""]);
            let on = some(t, &["on A", "on A", "on on", "on", "", "On A", "on A B", "on [A]", "on A!", ": A", "on A & B"]);
            let vars = some(t, &["", "", "", "", "($a: Int)"]);
            format!("fragment {}{} {} {} {}", name, vars, on, dirs, some(t, &["{a}", "{a}", "{}", "", "{a} {b}"]))
        }
    };
    let pre = some(t, &["", "", "", "{ z } ", "query z { z } ", "\"d\" ", "extend ", "scalar S ", "} ", ", "]);
    let post = some(t, &["", "", "", " { z }", " }", " z", " \"d\"", " {", " scalar S", " # c", " @d", " %"]);
    format!("{}{}{}", pre, body, post)
}
/// Texts around the rules that are not plain syntax.
fn schema_rules(g: &mut Gen, t: &mut Tape) -> String {
    let n = g.name();
    let some = |t: &mut Tape, v: &[&str]| t.pick(v).to_string();
    let body = match t.below(5) {
        0 => {
            let k = t.below(5);
            let ops: Vec<String> = (0..k)
                .map(|_| {
                    let w = some(t, &["query", "mutation", "subscription", "query", "Query", "queries", "name", "schema"]);
                    format!("{}: {}", w, n)
                })
                .collect();
            format!("schema {}{{ {} }}", some(t, &["", "@d ", "@d(a: 1) "]), ops.join(" "))
        }
        1 => {
            let k = some(t, &["type", "interface", "union", "enum", "input", "scalar", "schema", "directive", "fragment"]);
            let i = some(t, &["", "", "implements A", "implements A & B", "implements & A", "implements &", "implements", "implements A B"]);
            let d = some(t, &["", "", "@d", "@d(a: 1)", "@", "@d()"]);
            let b = some(t, &["", "", "{ a: Int }", "{ }", "= A | B", "= | A", "=", "{ A B }", "{ a: Int = 1 }", "{ a(b: Int): Int }", "{ a(): Int }", "{ \"d\" A @d }"]);
            let desc = some(t, &["", "", "", "\"d\" ", "\"\"\"d\"\"\" "]);
            format!("{}{}{} {} {} {} {}", desc, some(t, &["extend ", "extend ", ""]), k, n, i, d, b)
        }
        2 => {
            let k = t.below(4);
            let locs: Vec<String> = (0..k)
                .map(|_| match t.below(4) {
                    0 => some(t, &["QUERIES", "query", "FIELDS", "Field", "OBJECTS", "ON", "FIELD_", "_FIELD", "INPUT", "TYPE", "VARIABLE"]),
                    1 => EXEC_LOCS[t.below(7)].to_string(),
                    _ => TYPE_LOCS[t.below(12)].to_string(),
                })
                .collect();
            let a = some(t, &["", "", "(a: Int)", "()", "(a: Int = $v)", "(a: Int = 1 @d)"]);
            let r = some(t, &["", "", "repeatable", "repeatable repeatable", "Repeatable"]);
            let on = some(t, &["on", "on", "on", "on |", ""]);
            let sep = some(t, &[" | ", " | ", " ", " || "]);
            format!("{}directive @{}{} {} {} {}{}", some(t, &["", "\"d\" "]), n, a, r, on, locs.join(&sep), some(t, &["", "", " |", " \"x\"", " type A"]))
        }
        3 => {
            let d = some(t, &["1", "$v", "[$v]", "{a: $v}", "[1 2]", "{}", "[]", "", "{a: }", "\"s\"", "A", "[[1] {a: [2]}]", "@d"]);
            format!("{} {} {{ a{}: {} }}", some(t, &["type", "input", "interface"]), n, some(t, &["", "(b: Int = 1)", "(b: Int = $v)"]), format!("Int = {}", d))
        }
        _ => {
            let ty = some(t, &["Int", "[Int]", "[Int!]!", "[]", "[[Int]]!", "Int!!", "!Int", "[Int", "Int]", "[Int Int]", "1", "\"s\"", "$v", ""]);
            format!("type {} {{ a: {} }}", n, ty)
        }
    };
    let pre = some(t, &["", "", "scalar S ", "\"\"\"d\"\"\" ", "enum E { A } "]);
    let post = some(t, &["", "", " scalar S", " }", " \"d\"", " extend", " { a }", " type A"]);
    format!("{}{}{}", pre, body, post)
}

fn c04_fixed() -> Vec<Case> {
    work::big_wrong(&[Lang::Query])
}
pub static C04: Prop = Prop {
    id: "C04",
    rule: "Query documents damaged by token edits (delete, insert, replace, swap, repeat, move, splice, cut, phrases of the grammar in wrong places, brackets emptied or changed), short texts around each production, character edits, prefixes, schema documents and token soup; accepted only when the reference parser accepts, and then with the same tree. Non-trivial: three tokens or more.",
    gen: c04_gen,
    check: c04_check,
    fixed: c04_fixed,
    quick: 2_000_000,
    thorough: 50_000_000,
    tapes: (250, 250),
    stack: STACK,
    cut: &["text"],
};
fn c05_fixed() -> Vec<Case> {
    work::big_wrong(&[Lang::Schema])
}
pub static C05: Prop = Prop {
    id: "C05",
    rule: "Schema documents damaged as for C04, and texts built around the rules beyond syntax (operation names, empty extensions, locations, empty brackets, constants); accepted only when the reference parser accepts, and then with the same tree. Non-trivial: three tokens or more.",
    gen: c05_gen,
    check: c05_check,
    fixed: c05_fixed,
    quick: 2_000_000,
    thorough: 50_000_000,
    tapes: (300, 250),
    stack: STACK,
    cut: &["text"],
};
