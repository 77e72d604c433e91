//! C06, C07, C08, C18, C20: what is printed.

use super::*;
use crate::lower;
use crate::refprint::*;
use graphql_parser::query as q;
use graphql_parser::query::Text;
use graphql_parser::schema as s;

fn reads_back(lang: Lang, printed: &str, tree: &Doc) -> Verdict {
    let back = parse_doc(lang, printed).map_err(|e| format!("printed text is refused: {}\n  printed: {:?}", e, printed))?;
    let b = tree.clone().strip();
    let a = back.strip().adopt_floats(&b);
    if a != b {
        return Err(format!("printed text says something else\n  {}\n  printed: {:?}", diff(&a, &b), printed));
    }
    Ok(())
}

// ---- C06, C07 ----

fn fmt_gen(lang: Lang, g: &mut Gen, l: &mut Tape) -> Case {
    let s = sty(&mut g.t);
    let layout = if l.chance(1, 3) { Layout::Free } else { Layout::Plain };
    let (_, text) = doc_text(lang, g, l, layout);
    with_sty(Case::new().with("text", text), s)
}
fn fmt_check(lang: Lang, c: &Case, o: &mut Obs) -> Verdict {
    let text = c.get("text");
    let sty = sty_of(c);
    let d = match parse_ref(lang, text) {
        Ok(d) => d,
        Err(_) => {
            o.class("refused");
            return Ok(());
        }
    };
    let tree = d.lower();
    let printed = d.format(sty);
    reads_back(lang, &printed, &tree)?;
    doc_classes(text, &tree, o);
    o.class_if(sty.multi, "multiline arguments");
    o.class_if(sty != DEFAULT, "other style");
    o.class_if(printed.contains("\"\"\""), "prints a block string");
    o.nontrivial = lex(text).toks.len() >= 6;
    Ok(())
}
fn c06_gen(g: &mut Gen, l: &mut Tape) -> Case {
    fmt_gen(Lang::Query, g, l)
}
fn c06_check(c: &Case, o: &mut Obs) -> Verdict {
    fmt_check(Lang::Query, c, o)
}
fn c07_gen(g: &mut Gen, l: &mut Tape) -> Case {
    fmt_gen(Lang::Schema, g, l)
}
fn c07_check(c: &Case, o: &mut Obs) -> Verdict {
    fmt_check(Lang::Schema, c, o)
}
fn c06_fixed() -> Vec<Case> {
    work::big_styled(&[Lang::Query], "text")
}
pub static C06: Prop = Prop {
    id: "C06",
    rule: "Query documents generated as trees, written, parsed, formatted in a random style (indent 0 to 16, arguments on one line or several) and parsed again; both trees must be equal apart from positions. Non-trivial: six tokens or more.",
    gen: c06_gen,
    check: c06_check,
    fixed: c06_fixed,
    quick: 800_000,
    thorough: 20_000_000,
    tapes: (700, 300),
    stack: STACK,
    cut: &["text"],
};
fn c07_fixed() -> Vec<Case> {
    work::big_styled(&[Lang::Schema], "text")
}
pub static C07: Prop = Prop {
    id: "C07",
    rule: "Schema documents generated as trees, written, parsed, formatted in a random style (indent 0 to 16, arguments on one line or several) and parsed again; both trees must be equal apart from positions. Non-trivial: six tokens or more.",
    gen: c07_gen,
    check: c07_check,
    fixed: c07_fixed,
    quick: 800_000,
    thorough: 20_000_000,
    tapes: (900, 300),
    stack: STACK,
    cut: &["text"],
};

// ---- C08 ----

fn c08_gen(g: &mut Gen, l: &mut Tape) -> Case {
    let s = sty(&mut g.t);
    let lang = g.lang();
    // a tree with one rich value often says more than a big tree
    let mut d = if g.t.chance(1, 3) { string_doc(g, lang) } else { g.doc(lang) };
    let (r, _) = write_doc(&mut d, l, Layout::Plain);
    with_sty(Case::new().with("lang", lang.name()).with("tree", r.text), s)
}
fn string_doc(g: &mut Gen, lang: Lang) -> Doc {
    let text = g.string();
    let deep = g.t.below(4);
    let mut v = Val::Str(text.clone());
    for i in 0..deep {
        v = if (deep + i) % 2 == 0 { Val::List(vec![v, Val::Str(text.clone())]) } else { Val::Obj(vec![("k".into(), v)]) };
    }
    let name = |s: &str| s.to_string();
    let z = P(0, 0);
    match lang {
        Lang::Query => {
            let leaf = SelSet { start: z, end: z, items: vec![] };
            let mut s = leaf.clone();
            let args = vec![(name("a"), v), (name("b"), Val::Str(g.string()))];
            for _ in 0..=deep {
                let f = QField { pos: z, alias: None, name: name("f"), args: args.clone(), dirs: vec![Dir { pos: z, name: name("d"), args: args.clone() }], sel: s };
                s = SelSet { start: z, end: z, items: vec![Sel::Field(f)] };
            }
            Doc::Q(QDoc(vec![QDef::Sel(s)]))
        }
        Lang::Schema => {
            let iv = InVal { pos: z, desc: Some(text.clone()), name: name("a"), ty: Ty::Named(name("T")), default: Some(v), dirs: vec![] };
            let f = SField { pos: z, desc: Some(g.string()), name: name("f"), args: vec![iv.clone(), iv.clone()], ty: Ty::Named(name("T")), dirs: vec![] };
            let e = EnumVal { pos: z, desc: Some(text.clone()), name: name("A"), dirs: vec![] };
            let t = |kind| SDef::Type(TypeDef { pos: z, desc: Some(text.clone()), name: name("N"), dirs: vec![], kind });
            Doc::S(SDoc(vec![
                t(TKind::Object { ifaces: vec![], fields: vec![f.clone(), f] }),
                t(TKind::Enum(vec![e.clone(), e])),
                t(TKind::Input(vec![iv])),
                t(TKind::Scalar),
            ]))
        }
    }
}
fn c08_check(c: &Case, o: &mut Obs) -> Verdict {
    let lang = lang_of(c);
    let sty = sty_of(c);
    // the tree is told by the reference parser: the crate's parser has no part in it
    let tree = match refparse::parse(lang, c.get("tree")) {
        Ok(d) => d.strip(),
        Err(_) => return Ok(()),
    };
    let printed = match lower::raise(&tree) {
        Some(lower::Raised::Q(d)) => d.format(&style(sty)),
        Some(lower::Raised::S(d)) => d.format(&style(sty)),
        None => return Ok(()),
    };
    reads_back(lang, &printed, &tree)?;
    doc_classes(c.get("tree"), &tree, o);
    o.class_if(printed.contains("\"\"\""), "prints a block string");
    o.class_if(printed.contains("\\u"), "prints an escape");
    let mut n = 0;
    let mut t = tree;
    t.map_val(&mut |_| n += 1);
    t.map_desc(&mut |_| n += 1);
    o.nontrivial = n > 0;
    Ok(())
}
fn c08_fixed() -> Vec<Case> {
    work::big_styled(&[Lang::Query, Lang::Schema], "tree")
}
pub static C08: Prop = Prop {
    id: "C08",
    rule: "Trees assembled through the public AST types and constructors (never by the crate's parser), rich in strings of every kind, printed in a random style and parsed; the parsed tree must equal the assembled one. Non-trivial: at least one value or description.",
    gen: c08_gen,
    check: c08_check,
    fixed: c08_fixed,
    quick: 700_000,
    thorough: 17_500_000,
    tapes: (500, 100),
    stack: STACK,
    cut: &["tree"],
};

// ---- C18 ----

fn c18_gen(g: &mut Gen, l: &mut Tape) -> Case {
    let s = sty(&mut g.t);
    let lang = g.lang();
    let layout = if l.chance(1, 3) { Layout::Free } else { Layout::Plain };
    let (_, text) = doc_text(lang, g, l, layout);
    with_sty(Case::new().with("lang", lang.name()).with("text", text), s)
}

/// A string on several lines stays inside the indentation of the line it starts on.
fn block_layout(printed: &str, sty: Sty) -> Verdict {
    for t in lex(printed).toks {
        if t.kind != K::Block || !t.text.contains('\n') {
            continue;
        }
        let line = printed[..t.start].rfind('\n').map_or(0, |i| i + 1);
        let indent = printed[line..].len() - printed[line..].trim_start_matches(' ').len();
        let lines: Vec<&str> = t.text.split('\n').collect();
        for l in &lines[1..lines.len() - 1] {
            let have = l.len() - l.trim_start_matches(' ').len();
            if !l.trim().is_empty() && have < indent + sty.indent as usize {
                return Err(format!("line {:?} of a string is indented {} where {} is its level", l, have, indent + sty.indent as usize));
            }
        }
        let last = lines[lines.len() - 1];
        if last.len() - 3 != indent || !last[..indent].bytes().all(|b| b == b' ') {
            return Err(format!("closing quotes {:?} are not at the indentation {}", last, indent));
        }
    }
    Ok(())
}

fn c18_check(c: &Case, o: &mut Obs) -> Verdict {
    let lang = lang_of(c);
    let text = c.get("text");
    let sty = sty_of(c);
    let d = match parse_ref(lang, text) {
        Ok(d) => d,
        Err(_) => {
            o.class("refused");
            return Ok(());
        }
    };
    let tree = d.lower().strip();
    let printed = d.format(sty);
    let mut want = RefP::new(sty);
    want.doc(&tree);
    compare(&printed, &want)?;
    block_layout(&printed, sty)?;
    let shown = d.display();
    if shown != d.format(DEFAULT) || shown != d.format_default() {
        return Err("Display differs from the default style".into());
    }
    let again = match parse_ref(lang, &printed) {
        Ok(d2) => d2.format(sty),
        Err(e) => return Err(format!("printed text is refused: {}", e)),
    };
    if again != printed {
        return Err(format!("formatting again changes {:?}\n  into {:?}", printed, again));
    }
    // the same tree from other text
    let toks: Vec<ETok> = lex(text).toks.iter().map(|t| ETok { kind: t.kind, text: t.text.to_string() }).collect();
    let plain = render(&toks, &mut Tape::new(&[]), Layout::Plain).text;
    match parse_ref(lang, &plain) {
        Ok(d2) if d2.format(sty) == printed => {}
        Ok(_) => return Err("the same tree with other positions is formatted differently".into()),
        Err(e) => return Err(format!("refused without its layout: {}", e)),
    }
    // the same tree built in code, all positions the same or in any order
    let mut moved = tree.clone();
    let mut at = text.len();
    moved.map_pos(&mut |p| {
        at = at.wrapping_mul(31).wrapping_add(7);
        *p = P((at / 8 % 3) as _, (at / 64 % 3) as _);
    });
    for built in [&tree, &moved] {
        let Some(d2) = crate::lower::raise_any(built) else { continue };
        if d2.format(sty) != printed {
            return Err(format!("the same tree built in code, with other positions, is formatted as {:?}\n  and not as {:?}", d2.format(sty), printed));
        }
        if d2.display() != shown {
            return Err("the same tree built in code, with other positions, is displayed differently".into());
        }
    }
    doc_classes(text, &tree, o);
    o.class_if(sty.multi, "multiline arguments");
    o.class_if(sty != DEFAULT, "other style");
    o.nontrivial = lex(text).toks.len() >= 6;
    Ok(())
}
fn c18_fixed() -> Vec<Case> {
    work::big_styled(&[Lang::Query, Lang::Schema], "text")
}
pub static C18: Prop = Prop {
    id: "C18",
    rule: "Documents of both languages and random styles; the formatted text is compared character by character with an independent printer of the layout (literals by value), with Display in the default style, with the format of its own parse, of the same tokens laid out differently, and of the same tree built in code with other positions. Non-trivial: six tokens or more.",
    gen: c18_gen,
    check: c18_check,
    fixed: c18_fixed,
    quick: 600_000,
    thorough: 15_000_000,
    tapes: (800, 300),
    stack: STACK,
    cut: &["text"],
};

// ---- C20 ----

/// Sees every node of a document together with its own printed form.
trait Visit {
    fn part(&mut self, shown: String, want: &mut dyn FnMut(&mut RefP), context: Option<(Lang, &str, &str)>);
}

fn v_val<'a, T: Text<'a>>(v: &q::Value<'a, T>, x: &mut dyn Visit, constant: bool) {
    let ctx = if constant { ("query($v: T = ", "){a}") } else { ("{a(x: ", ")}") };
    x.part(v.to_string(), &mut |r| r.val(&lower::val(v)), Some((Lang::Query, ctx.0, ctx.1)));
    match v {
        q::Value::List(l) => l.iter().for_each(|i| v_val(i, x, constant)),
        q::Value::Object(o) => o.values().for_each(|i| v_val(i, x, constant)),
        _ => {}
    }
}
fn v_ty<'a, T: Text<'a>>(t: &q::Type<'a, T>, x: &mut dyn Visit) {
    x.part(t.to_string(), &mut |r| r.ty(&lower::ty(t)), Some((Lang::Query, "query($v: ", "){a}")));
    match t {
        q::Type::ListType(t) | q::Type::NonNullType(t) => v_ty(t, x),
        _ => {}
    }
}
fn v_dirs<'a, T: Text<'a>>(d: &[q::Directive<'a, T>], x: &mut dyn Visit) {
    for d in d {
        x.part(d.to_string(), &mut |r| r.dir(&lower::dir(d)), Some((Lang::Query, "{a ", "}")));
        d.arguments.iter().for_each(|a| v_val(&a.1, x, false));
    }
}
fn v_selset<'a, T: Text<'a>>(s: &q::SelectionSet<'a, T>, x: &mut dyn Visit) {
    if !s.items.is_empty() {
        x.part(s.to_string(), &mut |r| r.selset(&lower::selset(s)), Some((Lang::Query, "query ", "")));
    }
    for i in &s.items {
        let low = lower::sel(i);
        match i {
            q::Selection::Field(f) => {
                x.part(f.to_string(), &mut |r| r.sel(&low), Some((Lang::Query, "{", "}")));
                f.arguments.iter().for_each(|a| v_val(&a.1, x, false));
                v_dirs(&f.directives, x);
                v_selset(&f.selection_set, x);
            }
            q::Selection::FragmentSpread(f) => {
                x.part(f.to_string(), &mut |r| r.sel(&low), Some((Lang::Query, "{", "}")));
                v_dirs(&f.directives, x);
            }
            q::Selection::InlineFragment(f) => {
                x.part(f.to_string(), &mut |r| r.sel(&low), Some((Lang::Query, "{", "}")));
                if let Some(c) = &f.type_condition {
                    v_cond(c, x);
                }
                v_dirs(&f.directives, x);
                v_selset(&f.selection_set, x);
            }
        }
    }
}
fn v_cond<'a, T: Text<'a>>(c: &q::TypeCondition<'a, T>, x: &mut dyn Visit) {
    let q::TypeCondition::On(n) = c;
    x.part(c.to_string(), &mut |r| r.s.push_str(&format!("on {}", n.as_ref())), Some((Lang::Query, "{... ", "{a}}")));
}
fn v_vars<'a, T: Text<'a>>(v: &[q::VariableDefinition<'a, T>], x: &mut dyn Visit) {
    for v in v {
        x.part(v.to_string(), &mut |r| r.var(&lower::var(v)), Some((Lang::Query, "query(", "){a}")));
        v_ty(&v.var_type, x);
        if let Some(d) = &v.default_value {
            v_val(d, x, true);
        }
    }
}
fn v_qdef<'a, T: Text<'a>>(d: &q::Definition<'a, T>, x: &mut dyn Visit) {
    let low = lower::qdef(d);
    let whole = Some((Lang::Query, "", ""));
    x.part(d.to_string(), &mut |r| r.qdef(&low), whole);
    match d {
        q::Definition::Fragment(f) => {
            x.part(f.to_string(), &mut |r| r.qdef(&low), whole);
            v_cond(&f.type_condition, x);
            v_dirs(&f.directives, x);
            v_selset(&f.selection_set, x);
        }
        q::Definition::Operation(o) => {
            use q::OperationDefinition as O;
            x.part(o.to_string(), &mut |r| r.qdef(&low), whole);
            match o {
                O::SelectionSet(s) => v_selset(s, x),
                O::Query(o) => {
                    x.part(o.to_string(), &mut |r| r.qdef(&low), whole);
                    v_vars(&o.variable_definitions, x);
                    v_dirs(&o.directives, x);
                    v_selset(&o.selection_set, x);
                }
                O::Mutation(o) => {
                    x.part(o.to_string(), &mut |r| r.qdef(&low), whole);
                    v_vars(&o.variable_definitions, x);
                    v_dirs(&o.directives, x);
                    v_selset(&o.selection_set, x);
                }
                O::Subscription(o) => {
                    x.part(o.to_string(), &mut |r| r.qdef(&low), whole);
                    v_vars(&o.variable_definitions, x);
                    v_dirs(&o.directives, x);
                    v_selset(&o.selection_set, x);
                }
            }
        }
    }
}
fn v_invals<'a, T: Text<'a>>(v: &[s::InputValue<'a, T>], x: &mut dyn Visit) {
    for v in v {
        x.part(v.to_string(), &mut |r| r.inval(&lower::inval(v)), Some((Lang::Schema, "input I {", "}")));
        v_ty(&v.value_type, x);
        if let Some(d) = &v.default_value {
            v_val(d, x, true);
        }
        v_dirs(&v.directives, x);
    }
}
fn v_fields<'a, T: Text<'a>>(v: &[s::Field<'a, T>], x: &mut dyn Visit) {
    for f in v {
        x.part(f.to_string(), &mut |r| r.sfield(&lower::sfield(f)), Some((Lang::Schema, "type T {", "}")));
        v_invals(&f.arguments, x);
        v_ty(&f.field_type, x);
        v_dirs(&f.directives, x);
    }
}
fn v_sdef<'a, T: Text<'a>>(d: &s::Definition<'a, T>, x: &mut dyn Visit) {
    use s::TypeDefinition as D;
    use s::TypeExtension as E;
    let low = lower::sdef(d);
    let whole = Some((Lang::Schema, "", ""));
    x.part(d.to_string(), &mut |r| r.sdef(&low), whole);
    let inner = match d {
        s::Definition::SchemaDefinition(y) => {
            v_dirs(&y.directives, x);
            y.to_string()
        }
        s::Definition::DirectiveDefinition(y) => {
            v_invals(&y.arguments, x);
            y.to_string()
        }
        s::Definition::TypeDefinition(t) => {
            x.part(t.to_string(), &mut |r| r.sdef(&low), whole);
            match t {
                D::Scalar(y) => {
                    v_dirs(&y.directives, x);
                    y.to_string()
                }
                D::Object(y) => {
                    v_dirs(&y.directives, x);
                    v_fields(&y.fields, x);
                    y.to_string()
                }
                D::Interface(y) => {
                    v_dirs(&y.directives, x);
                    v_fields(&y.fields, x);
                    y.to_string()
                }
                D::Union(y) => {
                    v_dirs(&y.directives, x);
                    y.to_string()
                }
                D::Enum(y) => {
                    v_dirs(&y.directives, x);
                    y.values.iter().for_each(|v| v_dirs(&v.directives, x));
                    y.to_string()
                }
                D::InputObject(y) => {
                    v_dirs(&y.directives, x);
                    v_invals(&y.fields, x);
                    y.to_string()
                }
            }
        }
        s::Definition::TypeExtension(t) => {
            x.part(t.to_string(), &mut |r| r.sdef(&low), whole);
            match t {
                E::Scalar(y) => {
                    v_dirs(&y.directives, x);
                    y.to_string()
                }
                E::Object(y) => {
                    v_dirs(&y.directives, x);
                    v_fields(&y.fields, x);
                    y.to_string()
                }
                E::Interface(y) => {
                    v_dirs(&y.directives, x);
                    v_fields(&y.fields, x);
                    y.to_string()
                }
                E::Union(y) => {
                    v_dirs(&y.directives, x);
                    y.to_string()
                }
                E::Enum(y) => {
                    v_dirs(&y.directives, x);
                    y.values.iter().for_each(|v| v_dirs(&v.directives, x));
                    y.to_string()
                }
                E::InputObject(y) => {
                    v_dirs(&y.directives, x);
                    v_invals(&y.fields, x);
                    y.to_string()
                }
            }
        }
    };
    x.part(inner, &mut |r| r.sdef(&low), whole);
}
fn visit<'a, T: Text<'a>>(d: &Any<'a, T>, x: &mut dyn Visit) {
    match d {
        Any::Q(d) => d.definitions.iter().for_each(|d| v_qdef(d, x)),
        Any::S(d) => d.definitions.iter().for_each(|d| v_sdef(d, x)),
    }
}

/// Prints every part of a document.
pub fn print_parts<'a, T: Text<'a>>(d: &Any<'a, T>) -> usize {
    struct Count(usize);
    impl Visit for Count {
        fn part(&mut self, s: String, _: &mut dyn FnMut(&mut RefP), _: Option<(Lang, &str, &str)>) {
            self.0 += s.len();
        }
    }
    let mut c = Count(0);
    visit(d, &mut c);
    c.0
}

struct Judge {
    bad: Option<String>,
    parts: usize,
    reparsed: usize,
}
impl Visit for Judge {
    fn part(&mut self, shown: String, want: &mut dyn FnMut(&mut RefP), context: Option<(Lang, &str, &str)>) {
        if self.bad.is_some() {
            return;
        }
        self.parts += 1;
        let mut r = RefP::new(DEFAULT);
        want(&mut r);
        if let Err(e) = compare(&shown, &r) {
            self.bad = Some(format!("part printed as {:?}: {}", shown, e));
            return;
        }
        if let Some((lang, pre, post)) = context {
            // what the part is told by its own text: in its context, the reference parser
            // and the crate have to agree on it
            let text = format!("{}{}{}", pre, shown, post);
            self.reparsed += 1;
            let res = match refparse::parse(lang, &text) {
                Ok(d) => {
                    let mut back = RefP::new(DEFAULT);
                    back.doc(&d);
                    let mut own = RefP::new(DEFAULT);
                    want(&mut own);
                    let same = back.lits.len() == own.lits.len()
                        && back.lits.iter().zip(&own.lits).all(|x| match x {
                            (Val::Int(n), Val::Float(f)) => is_double(*n, *f),
                            (a, b) => a == b,
                        });
                    if !same {
                        Err(format!("literals {:?} for {:?}", back.lits, own.lits))
                    } else {
                        same_tree(lang, &text, &d, false)
                    }
                }
                // the part fits and the whole does not
                Err(e) if e.why == refparse::Why::TooDeep => Ok(()),
                Err(e) => Err(format!("no document around it: {:?}", e)),
            };
            if let Err(e) = res {
                self.bad = Some(format!("printed part in context, {:?}: {}", text, e));
            }
        }
    }
}

fn c20_gen(g: &mut Gen, l: &mut Tape) -> Case {
    g.budget = g.budget.min(70);
    let lang = g.lang();
    let (_, text) = doc_text(lang, g, l, Layout::Plain);
    Case::new().with("lang", lang.name()).with("text", text)
}
fn c20_check(c: &Case, o: &mut Obs) -> Verdict {
    let lang = lang_of(c);
    let text = c.get("text");
    // trees of every kind of string, and such as were built in code
    match text.bytes().fold(7usize, |h, b| h.wrapping_mul(31).wrapping_add(b as usize)) / 8 % 4 {
        0 => c20_judge(parse_ref(lang, text).ok(), text, o),
        1 => c20_judge(parse::<String>(lang, text).ok(), text, o),
        2 => c20_judge(parse::<std::borrow::Cow<str>>(lang, text).ok(), text, o),
        _ => c20_judge(parse_ref(lang, text).ok().and_then(|d| crate::lower::raise_any(&d.lower().strip())), text, o),
    }
}
fn c20_judge<'a, T: Text<'a>>(d: Option<Any<'a, T>>, text: &str, o: &mut Obs) -> Verdict {
    let Some(d) = d else { return Ok(()) };
    let mut j = Judge { bad: None, parts: 0, reparsed: 0 };
    visit(&d, &mut j);
    if let Some(b) = j.bad {
        return Err(b);
    }
    let shown = match &d {
        Any::Q(d) => d.definitions.iter().map(|x| x.to_string()).collect::<Vec<_>>(),
        Any::S(d) => d.definitions.iter().map(|x| x.to_string()).collect(),
    };
    if shown.join("\n") != d.display() {
        return Err("the document is not its printed definitions with a blank line between".into());
    }
    o.class(match j.parts {
        0..=5 => "parts<=5",
        6..=30 => "parts 6-30",
        _ => "parts>30",
    });
    doc_classes(text, &d.lower(), o);
    o.nontrivial = j.parts >= 4;
    Ok(())
}
fn c20_fixed() -> Vec<Case> {
    work::big_cases(&[Lang::Query, Lang::Schema], "text")
}
pub static C20: Prop = Prop {
    id: "C20",
    rule: "Documents of both languages, parsed with the three string types or built in code; every node is printed alone, compared with an independent printer of the layout started at that node, and read back inside a small document. Non-trivial: four printed parts or more.",
    gen: c20_gen,
    check: c20_check,
    fixed: c20_fixed,
    quick: 250_000,
    thorough: 6_250_000,
    tapes: (500, 100),
    stack: STACK,
    cut: &["text"],
};
