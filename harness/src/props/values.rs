//! C24 and C25: trees as values, and what they are started from.

use super::*;
use crate::leaf;
use crate::lower::{self, Raised};
use graphql_parser::query as q;
use graphql_parser::query::Text;
use graphql_parser::schema as s;
use graphql_parser::Pos;
use std::borrow::Cow;

// ---- C24 ----

fn c24_gen(g: &mut Gen, l: &mut Tape) -> Case {
    // before the tape runs out
    let edit: Vec<String> = (0..10).map(|_| g.t.raw().to_string()).collect();
    let lang = g.lang();
    g.budget = g.budget.min(60);
    let mut d = g.doc(lang);
    let (r, _) = write_doc(&mut d, l, Layout::Free);
    Case::new().with("lang", lang.name()).with("tree", r.text).with("edit", edit.join(" "))
}
/// Zeros of either sign are equal as numbers.
fn one_zero(d: &Doc) -> Doc {
    let mut d = d.clone();
    d.map_val(&mut |v| {
        if let Val::Float(f) = v {
            *f = F::new(f.get() + 0.0)
        }
    });
    d
}
fn raised(d: &Doc) -> Option<Any<'static, String>> {
    Some(match lower::raise(d)? {
        Raised::Q(d) => Any::Q(d),
        Raised::S(d) => Any::S(d),
    })
}
/// The crate's own comparison, both ways round, and its negation.
fn equal(a: &Any<'static, String>, b: &Any<'static, String>) -> Result<bool, String> {
    let r = match (a, b) {
        (Any::Q(a), Any::Q(b)) => [a == b, b == a, !(a != b), a.definitions == b.definitions],
        (Any::S(a), Any::S(b)) => [a == b, b == a, !(a != b), a.definitions == b.definitions],
        _ => [false; 4],
    };
    if r.iter().any(|x| *x != r[0]) {
        return Err(format!("a == b, b == a, !(a != b), and of the definitions: {:?}", r));
    }
    Ok(r[0])
}
fn debug(a: &Any<'static, String>) -> String {
    match a {
        Any::Q(d) => format!("{:?}", d),
        Any::S(d) => format!("{:?}", d),
    }
}
fn hash(p: &Pos) -> u64 {
    use std::hash::{BuildHasher, BuildHasherDefault, DefaultHasher};
    BuildHasherDefault::<DefaultHasher>::default().hash_one(p)
}
fn c24_check(c: &Case, o: &mut Obs) -> Verdict {
    let lang = lang_of(c);
    let Ok(d) = refparse::parse(lang, c.get("tree")) else { return Ok(()) };
    let tape: Vec<u32> = c.get("edit").split_whitespace().filter_map(|x| x.parse().ok()).collect();
    let mut g = Gen::new(&[]);
    g.budget = 10;
    g.t = Tape::new(&tape);
    let mut other = d.clone();
    let what = leaf::edit(&mut other, &mut g);
    let other = other.norm();
    let (Some(a), Some(a2), Some(b)) = (raised(&d), raised(&d), raised(&other)) else { return Ok(()) };
    if !equal(&a, &a2)? || !equal(&a, &a)? {
        return Err("a tree is not equal to the same tree built again".into());
    }
    if let Ok(p) = parse::<String>(lang, c.get("tree")) {
        // parsing exactly this tree is C02's, C03's and C11's concern
        let p = match p {
            Any::Q(p) => Any::Q(p.into_static()),
            Any::S(p) => Any::S(p.into_static()),
        };
        if p.lower() == d && !equal(&p, &a)? {
            return Err("the parsed tree is not equal to the same tree built in code".into());
        }
    }
    let same = one_zero(&d) == one_zero(&other);
    if equal(&a, &b)? != same {
        return Err(format!("{} by its {}, yet they compare as {}\n  {}", if same { "not changed" } else { "changed" }, what, if same { "different" } else { "equal" }, diff(&d, &other)));
    }
    // what a debugger, a log or a snapshot test shows
    if debug(&a) != debug(&a2) {
        return Err("the debug texts of a tree and of the same tree built again differ".into());
    }
    if other != d && debug(&a) == debug(&b) {
        return Err(format!("changed by its {}, yet the debug texts are the same\n  {}", what, diff(&d, &other)));
    }
    let mut copy = a.clone();
    if copy.lower() != d || !equal(&copy, &a)? {
        return Err(format!("a clone is another tree\n  {}", diff(&copy.lower(), &d)));
    }
    copy.clone_from(&b);
    if copy.lower() != other || a.lower() != d || b.lower() != other {
        return Err("clone_from did not leave a copy of the other tree".into());
    }
    // positions, among themselves
    let mut ps = vec![];
    d.clone().map_pos(&mut |p| ps.push(*p));
    for w in ps.windows(2) {
        let [x, y] = [w[0], w[1]].map(|p| Pos { line: p.0 as usize, column: p.1 as usize });
        if x.cmp(&y) != w[0].cmp(&w[1]) || x.partial_cmp(&y) != Some(w[0].cmp(&w[1])) || (x == y) != (w[0] == w[1]) {
            return Err(format!("positions {:?} and {:?} compare as {:?}", w[0], w[1], x.cmp(&y)));
        }
        let t = format!("{}:{}", x.line, x.column);
        if x.to_string() != t || x != x.clone() {
            return Err(format!("position {} prints as {}", t, x));
        }
        if x == y && hash(&x) != hash(&y) || hash(&x) != hash(&x.clone()) {
            return Err(format!("positions {:?} and {:?} hash to {:x} and {:x}", w[0], w[1], hash(&x), hash(&y)));
        }
        if (format!("{:?}", x) == format!("{:?}", y)) != (x == y) {
            return Err(format!("positions {:?} and {:?} have the debug texts {:?} and {:?}", w[0], w[1], x, y));
        }
    }
    if same {
        o.class("no change");
    } else {
        o.class(what);
        o.nontrivial = true;
    }
    Ok(())
}
fn c24_fixed() -> Vec<Case> {
    work::big_cases(&[Lang::Query, Lang::Schema], "tree").into_iter().enumerate().map(|(i, c)| c.with("edit", format!("{}", (i as u32).wrapping_mul(2_654_435_761)))).collect()
}
pub static C24: Prop = Prop {
    id: "C24",
    rule: "Trees with positions, built through the public AST; each compared with itself built again and parsed, with a clone, and with a tree that differs in one chosen place (any field of any node, list order, length, kind, position). Equal exactly when the reference trees are. Non-trivial: the edit changed something.",
    gen: c24_gen,
    check: c24_check,
    fixed: c24_fixed,
    quick: 600_000,
    thorough: 20_000_000,
    tapes: (250, 150),
    stack: STACK,
    cut: &["tree"],
};

// ---- C25 ----

const NODES: [&str; 14] = [
    "scalar", "type", "interface", "union", "enum", "input", "extend scalar", "extend type", "extend interface", "extend union",
    "extend enum", "extend input", "directive", "enum value",
];

fn c25_gen(g: &mut Gen, l: &mut Tape) -> Case {
    let node = *g.t.pick(&NODES);
    let name = g.name();
    let calls: Vec<String> = (0..l.below(7))
        .map(|_| match l.below(3) {
            0 => "m0".to_string(),
            1 => "m1".to_string(),
            _ => format!("i{}", [0, 1, 2, 3, 4, 8, 13, 31, 33, 64, 100, 129, 256][l.below(13)]),
        })
        .collect();
    Case::new()
        .with("node", node)
        .with("name", name)
        .with("style", calls.join(" "))
        .with("int", (l.raw() as i32).wrapping_shr(l.below(32) as u32).to_string())
}
/// What a node made by `new` says, and how it prints.
fn fresh<'a, T: Text<'a>>(node: &str, n: T::Value) -> (SDef, String) {
    use s::*;
    let def = |d: Definition<'a, T>| (lower::sdef(&d), d.to_string());
    let ty = |d: TypeDefinition<'a, T>| def(Definition::TypeDefinition(d));
    let ext = |d: TypeExtension<'a, T>| def(Definition::TypeExtension(d));
    match node {
        "scalar" => ty(TypeDefinition::Scalar(ScalarType::new(n))),
        "type" => ty(TypeDefinition::Object(ObjectType::new(n))),
        "interface" => ty(TypeDefinition::Interface(InterfaceType::new(n))),
        "union" => ty(TypeDefinition::Union(UnionType::new(n))),
        "enum" => ty(TypeDefinition::Enum(EnumType::new(n))),
        "input" => ty(TypeDefinition::InputObject(InputObjectType::new(n))),
        "extend scalar" => ext(TypeExtension::Scalar(ScalarTypeExtension::new(n))),
        "extend type" => ext(TypeExtension::Object(ObjectTypeExtension::new(n))),
        "extend interface" => ext(TypeExtension::Interface(InterfaceTypeExtension::new(n))),
        "extend union" => ext(TypeExtension::Union(UnionTypeExtension::new(n))),
        "extend enum" => ext(TypeExtension::Enum(EnumTypeExtension::new(n))),
        "extend input" => ext(TypeExtension::InputObject(InputObjectTypeExtension::new(n))),
        "directive" => def(Definition::DirectiveDefinition(DirectiveDefinition::new(n))),
        _ => {
            // the enum around it is made without `new`
            let v = EnumValue::new(n.clone());
            let e = EnumType { position: Pos::default(), description: None, name: n, directives: vec![], values: vec![v] };
            ty(TypeDefinition::Enum(e))
        }
    }
}
fn c25_check(c: &Case, o: &mut Obs) -> Verdict {
    let name = c.get("name");
    let node = c.get("node");
    let z = P(0, 0);
    let nm = || name.to_string();
    let word = node.strip_prefix("extend ");
    let kind = match word.unwrap_or(node) {
        "scalar" => Some(TKind::Scalar),
        "type" => Some(TKind::Object { ifaces: vec![], fields: vec![] }),
        "interface" => Some(TKind::Interface { ifaces: vec![], fields: vec![] }),
        "union" => Some(TKind::Union(vec![])),
        "enum" => Some(TKind::Enum(vec![])),
        "input" => Some(TKind::Input(vec![])),
        "enum value" => Some(TKind::Enum(vec![EnumVal { pos: z, desc: None, name: nm(), dirs: vec![] }])),
        _ => None,
    };
    let want = match kind {
        Some(kind) => {
            let t = TypeDef { pos: z, desc: None, name: nm(), dirs: vec![], kind };
            if word.is_some() { SDef::Ext(t) } else { SDef::Type(t) }
        }
        None => SDef::Directive(DirDef { pos: z, desc: None, name: nm(), args: vec![], repeatable: false, locs: vec![] }),
    };
    let all = [
        fresh::<String>(node, nm()),
        fresh::<&str>(node, name),
        fresh::<Cow<str>>(node, Cow::Borrowed(name)),
    ];
    for (got, printed) in &all {
        if *got != want {
            return Err(format!("{} made by new({:?}) is {:?}", node, name, got));
        }
        // alone it prints as its kind and name; what can be read back means the same
        if !printed.starts_with(&if node == "enum value" { format!("enum {}", name) } else { format!("{} ", node) }[..]) || !printed.contains(name) {
            return Err(format!("{} made by new({:?}) prints as {:?}", node, name, printed));
        }
        if word.is_none() && node != "directive" {
            let back = parse_doc(Lang::Schema, printed).map(|d| d.strip());
            if back != Ok(Doc::S(SDoc(vec![want.clone()]))) {
                return Err(format!("{} made by new({:?}) prints as {:?} and reads back as {:?}", node, name, printed, back));
            }
        }
    }
    // documents and schema definitions start empty
    let d = s::Document::<String>::default();
    if lower::sdoc(&d) != Doc::S(SDoc(vec![])) || !d.to_string().is_empty() {
        return Err(format!("Document::default() is {:?}", d));
    }
    let sd = s::Definition::SchemaDefinition(s::SchemaDefinition::<String>::default());
    if lower::sdef(&sd) != SDef::Schema(SchemaDef { pos: z, dirs: vec![], query: None, mutation: None, subscription: None }) {
        return Err(format!("SchemaDefinition::default() is {:?}", sd));
    }
    // numbers
    let i = c.get("int").parse::<i32>().unwrap_or(0);
    let n = q::Number::from(i);
    if n.as_i64() != Some(i64::from(i)) || q::Value::<String>::Int(i.into()).to_string() != i.to_string() {
        return Err(format!("Number::from({}) is {:?}", i, n.as_i64()));
    }
    // a style is what was set last, whatever came before
    let mut st = graphql_parser::Style::default();
    let mut last = Sty { indent: 2, multi: false };
    for x in c.get("style").split_whitespace() {
        match (x.get(..1), x.get(1..).and_then(|n| n.parse::<u32>().ok())) {
            (Some("m"), Some(n)) => {
                st.multiline_arguments(n == 1);
                last.multi = n == 1;
            }
            (Some("i"), Some(n)) => {
                st.indent(n);
                last.indent = n;
            }
            _ => {}
        }
    }
    if st != style(last) || st.clone() != st {
        return Err(format!("after {:?} a style is {:?}", c.get("style"), st));
    }
    let doc = q::parse_query::<String>("{a(b:1,c:{d:[2]}){e@f(g:3)}}").map_err(|e| e.to_string())?;
    let before = format!("{:?}", st);
    let (x, y) = (doc.format(&st), doc.format(&style(last)));
    let mut want = crate::refprint::RefP::new(last);
    want.doc(&lower::qdoc(&doc).strip());
    crate::refprint::compare(&x, &want).map_err(|e| format!("after {:?}: {}", c.get("style"), e))?;
    let untouched = last == Sty { indent: 2, multi: false };
    if x != y || (untouched && x != doc.to_string()) || format!("{:?}", st) != before {
        return Err(format!("after {:?} a style gives {:?}, where {:?} gives {:?}", c.get("style"), x, last, y));
    }
    o.class(NODES.iter().copied().find(|x| *x == node).unwrap_or("other"));
    o.class_if(c.get("style").split(' ').count() > 2, "style set three times or more");
    o.nontrivial = true;
    Ok(())
}
fn c25_fixed() -> Vec<Case> {
    let mut v = vec![];
    for node in NODES {
        for name in ["A", "_", "type", "on", "extend", "Query"] {
            v.push(Case::new().with("node", node).with("name", name).with("style", "i0 m1").with("int", i32::MIN.to_string()));
        }
    }
    for n in [100, 255, 257, 1000, 32_769, 65_537, 1_000_000] {
        v.push(Case::new().with("node", "scalar").with("name", "A").with("style", format!("m1 i{}", n)).with("int", "0"));
    }
    v
}
pub static C25: Prop = Prop {
    id: "C25",
    rule: "Every kind of node with a `new`, for generated names in three string types, against a node with that name and nothing else; default documents and schemas; numbers from any 32 bits; styles after random sequences of settings against a style set once. Non-trivial: all.",
    gen: c25_gen,
    check: c25_check,
    fixed: c25_fixed,
    quick: 300_000,
    thorough: 7_500_000,
    tapes: (40, 40),
    stack: STACK,
    cut: &[],
};
