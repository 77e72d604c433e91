//! The properties: how to make cases and how to judge them.

use crate::api::*;
use crate::dict::dict;
use crate::emit::*;
use crate::gen::*;
use crate::model::*;
use crate::refparse;
use crate::refprint::Sty;
use crate::reflex::*;
use crate::run::*;

pub mod calls;
mod errors;
mod faults;
mod format;
mod layout;
mod literals;
mod memory;
mod nesting;
mod parse;
mod texts;
mod values;
pub mod work;

pub const STACK: usize = 16 << 20;
/// what std::thread gives by default
pub const SMALL_STACK: usize = 2 << 20;

pub static ALL: &[&Prop] = &[
    &parse::C01, &parse::C02, &parse::C03, &parse::C04, &parse::C05, &format::C06, &format::C07, &format::C08,
    &literals::C09, &literals::C10, &layout::C11, &layout::C12, &layout::C13, &nesting::C14, &texts::C15, &texts::C16,
    &texts::C17, &format::C18, &texts::C19, &format::C20, &calls::C21, &work::C22, &errors::C23,
    &values::C24, &values::C25, &faults::C26, &memory::C27,
];

pub fn none() -> Vec<Case> {
    vec![]
}

/// A generated document and its text; the reference parser has to agree with the
/// generator, or the harness itself is wrong.
pub fn doc_text(lang: Lang, g: &mut Gen, l: &mut Tape, layout: Layout) -> (Doc, String) {
    if g.t.chance(1, crate::mutate::BIG_ONE_IN) {
        let text = work::big(lang, g, l);
        return match refparse::parse(lang, &text) {
            Ok(d) => (d, text),
            Err(e) => panic!("harness: reference parser refuses at {:?} the generated {:?}", e, text),
        };
    }
    let mut d = g.doc(lang);
    let (r, toks) = write_doc(&mut d, l, layout);
    let d = d.norm();
    match refparse::parse(lang, &r.text) {
        Ok(x) if x == d => {}
        Ok(x) => panic!("harness: reference parser disagrees with generator on {:?}\n  {}", r.text, diff(&x, &d)),
        Err(e) => panic!("harness: reference parser refuses at {:?} the generated {:?}", e, r.text),
    }
    debug_assert_eq!(toks.len(), lex(&r.text).toks.len());
    (d, r.text)
}

pub fn sty(t: &mut Tape) -> Sty {
    Sty { indent: if t.chance(1, 40) { [33, 40, 64, 100, 129, 300, dict().size(t, 300).unwrap_or(20) as u32][t.below(7)] } else { [2, 0, 1, 3, 4, 8, 16, 5][t.below(8)] }, multi: t.chance(1, 2) }
}
pub fn with_sty(c: Case, s: Sty) -> Case {
    c.with("indent", s.indent.to_string()).with("multiline", if s.multi { "1" } else { "0" })
}
pub fn sty_of(c: &Case) -> Sty {
    Sty { indent: c.num("indent") as u32, multi: c.get("multiline") == "1" }
}
pub fn lang_of(c: &Case) -> Lang {
    Lang::from_name(c.get("lang"))
}

/// The crate's tree against the reference's, positions included or not.
pub fn same_tree(lang: Lang, text: &str, want: &Doc, positions: bool) -> Verdict {
    let got = parse_doc(lang, text).map_err(|e| format!("refused: {}", e))?;
    let (got, want) = if positions { (got, want.clone()) } else { (got.strip(), want.clone().strip()) };
    if got != want {
        return Err(format!("tree differs\n  {}", diff(&got, &want)));
    }
    Ok(())
}

pub fn doc_classes(text: &str, d: &Doc, o: &mut Obs) {
    let n = lex(text).toks.len();
    o.class(match n {
        0..=9 => "tokens<10",
        10..=49 => "tokens 10-49",
        50..=199 => "tokens 50-199",
        _ => "tokens>=200",
    });
    o.class_if(d.len() > 1, "several definitions");
    match d {
        Doc::Q(q) => {
            for x in &q.0 {
                o.class(match x {
                    QDef::Sel(_) => "bare selection set",
                    QDef::Op(o) => o.kind.word(),
                    QDef::Frag(_) => "fragment",
                });
            }
        }
        Doc::S(s) => {
            for x in &s.0 {
                o.class(match x {
                    SDef::Schema(_) => "schema",
                    SDef::Type(t) => t.kind.word(),
                    SDef::Ext(t) => match t.kind {
                        TKind::Scalar => "extend scalar",
                        TKind::Object { .. } => "extend type",
                        TKind::Interface { .. } => "extend interface",
                        TKind::Union(_) => "extend union",
                        TKind::Enum(_) => "extend enum",
                        TKind::Input(_) => "extend input",
                    },
                    SDef::Directive(_) => "directive",
                });
            }
        }
    }
    let mut d = d.clone();
    let (mut vals, mut strs, mut floats, mut objs, mut nest) = (0, 0, 0, 0, 0);
    d.map_val(&mut |v| {
        vals += 1;
        match v {
            Val::Str(_) => strs += 1,
            Val::Float(_) => floats += 1,
            Val::Obj(_) => objs += 1,
            Val::List(l) => nest += l.iter().any(|x| matches!(x, Val::List(_) | Val::Obj(_))) as i32,
            _ => {}
        }
    });
    let mut descs = 0;
    d.map_desc(&mut |_| descs += 1);
    o.class_if(vals > 0, "has values");
    o.class_if(strs > 0, "has strings");
    o.class_if(floats > 0, "has floats");
    o.class_if(objs > 0, "has objects");
    o.class_if(nest > 0, "nested lists");
    o.class_if(descs > 0, "has descriptions");
}
