//! Every single thing a tree says, one by one, and ways of saying something else instead.

use crate::gen::Gen;
use crate::model::*;

/// A list whose order and length mean something.
pub trait Seq {
    fn count(&self) -> usize;
    fn swap(&mut self, i: usize, j: usize);
    fn remove(&mut self, i: usize);
    fn twice(&mut self, i: usize);
}
impl<T: Clone> Seq for Vec<T> {
    fn count(&self) -> usize {
        self.len()
    }
    fn swap(&mut self, i: usize, j: usize) {
        self.as_mut_slice().swap(i, j)
    }
    fn remove(&mut self, i: usize) {
        Vec::remove(self, i);
    }
    fn twice(&mut self, i: usize) {
        let x = self[i].clone();
        self.insert(i, x);
    }
}

pub enum Leaf<'a> {
    Pos(&'a mut P),
    Name(&'a mut String),
    OptName(&'a mut Option<String>),
    Desc(&'a mut Option<String>),
    Val(&'a mut Val),
    OptVal(&'a mut Option<Val>),
    Ty(&'a mut Ty),
    Flag(&'a mut bool),
    Kind(&'a mut OpKind),
    Loc(&'a mut String),
    Def(&'a mut SDef),
    TKind(&'a mut TKind),
    Seq(&'a mut dyn Seq),
}
impl Leaf<'_> {
    fn kind(&self) -> u8 {
        match self {
            Leaf::Pos(_) => 0,
            Leaf::Name(_) => 1,
            Leaf::OptName(_) => 2,
            Leaf::Desc(_) => 3,
            Leaf::Val(_) => 4,
            Leaf::OptVal(_) => 5,
            Leaf::Ty(_) => 6,
            Leaf::Flag(_) => 7,
            Leaf::Kind(_) => 8,
            Leaf::Loc(_) => 9,
            Leaf::Def(_) => 10,
            Leaf::TKind(_) => 11,
            Leaf::Seq(_) => 12,
        }
    }
}
type V<'v> = &'v mut dyn FnMut(Leaf);

fn val(x: &mut Val, v: V) {
    match x {
        Val::List(l) => {
            l.iter_mut().for_each(|x| val(x, v));
            v(Leaf::Seq(l));
        }
        Val::Obj(o) => {
            for (k, x) in o.iter_mut() {
                v(Leaf::Name(k));
                val(x, v);
            }
        }
        _ => {}
    }
    v(Leaf::Val(x));
}
fn opt_val(x: &mut Option<Val>, v: V) {
    if let Some(x) = x {
        val(x, v);
    }
    v(Leaf::OptVal(x));
}
fn args(a: &mut Args, v: V) {
    for (k, x) in a.iter_mut() {
        v(Leaf::Name(k));
        val(x, v);
    }
    v(Leaf::Seq(a));
}
fn dirs(d: &mut Vec<Dir>, v: V) {
    for d in d.iter_mut() {
        v(Leaf::Pos(&mut d.pos));
        v(Leaf::Name(&mut d.name));
        args(&mut d.args, v);
    }
    v(Leaf::Seq(d));
}
fn names(x: &mut Vec<String>, v: V) {
    x.iter_mut().for_each(|n| v(Leaf::Name(n)));
    v(Leaf::Seq(x));
}
fn selset(s: &mut SelSet, v: V) {
    v(Leaf::Pos(&mut s.start));
    v(Leaf::Pos(&mut s.end));
    for i in s.items.iter_mut() {
        match i {
            Sel::Field(QField { pos, alias, name, args: a, dirs: d, sel }) => {
                v(Leaf::Pos(pos));
                v(Leaf::OptName(alias));
                v(Leaf::Name(name));
                args(a, v);
                dirs(d, v);
                selset(sel, v);
            }
            Sel::Spread { pos, name, dirs: d } => {
                v(Leaf::Pos(pos));
                v(Leaf::Name(name));
                dirs(d, v);
            }
            Sel::Inline { pos, on, dirs: d, sel } => {
                v(Leaf::Pos(pos));
                v(Leaf::OptName(on));
                dirs(d, v);
                selset(sel, v);
            }
        }
    }
    v(Leaf::Seq(&mut s.items));
}
fn invals(x: &mut Vec<InVal>, v: V) {
    for InVal { pos, desc, name, ty, default, dirs: d } in x.iter_mut() {
        v(Leaf::Pos(pos));
        v(Leaf::Desc(desc));
        v(Leaf::Name(name));
        v(Leaf::Ty(ty));
        opt_val(default, v);
        dirs(d, v);
    }
    v(Leaf::Seq(x));
}
fn fields(x: &mut Vec<SField>, v: V) {
    for SField { pos, desc, name, args, ty, dirs: d } in x.iter_mut() {
        v(Leaf::Pos(pos));
        v(Leaf::Desc(desc));
        v(Leaf::Name(name));
        invals(args, v);
        v(Leaf::Ty(ty));
        dirs(d, v);
    }
    v(Leaf::Seq(x));
}
fn typedef(t: &mut TypeDef, ext: bool, v: V) {
    let TypeDef { pos, desc, name, dirs: d, kind } = t;
    v(Leaf::Pos(pos));
    if !ext {
        v(Leaf::Desc(desc));
    }
    v(Leaf::Name(name));
    dirs(d, v);
    v(Leaf::TKind(kind));
    match kind {
        TKind::Scalar => {}
        TKind::Object { ifaces, fields: f } | TKind::Interface { ifaces, fields: f } => {
            names(ifaces, v);
            fields(f, v);
        }
        TKind::Union(n) => names(n, v),
        TKind::Enum(e) => {
            for EnumVal { pos, desc, name, dirs: d } in e.iter_mut() {
                v(Leaf::Pos(pos));
                v(Leaf::Desc(desc));
                v(Leaf::Name(name));
                dirs(d, v);
            }
            v(Leaf::Seq(e));
        }
        TKind::Input(f) => invals(f, v),
    }
}
pub fn leaves(d: &mut Doc, v: V) {
    match d {
        Doc::Q(q) => {
            for d in q.0.iter_mut() {
                match d {
                    QDef::Sel(s) => selset(s, v),
                    QDef::Op(Op { kind, pos, name, vars, dirs: d, sel }) => {
                        v(Leaf::Kind(kind));
                        v(Leaf::Pos(pos));
                        v(Leaf::OptName(name));
                        for VarDef { pos, name, ty, default } in vars.iter_mut() {
                            v(Leaf::Pos(pos));
                            v(Leaf::Name(name));
                            v(Leaf::Ty(ty));
                            opt_val(default, v);
                        }
                        v(Leaf::Seq(vars));
                        dirs(d, v);
                        selset(sel, v);
                    }
                    QDef::Frag(Frag { pos, name, on, dirs: d, sel }) => {
                        v(Leaf::Pos(pos));
                        v(Leaf::Name(name));
                        v(Leaf::Name(on));
                        dirs(d, v);
                        selset(sel, v);
                    }
                }
            }
            v(Leaf::Seq(&mut q.0));
        }
        Doc::S(s) => {
            for d in s.0.iter_mut() {
                match d {
                    SDef::Schema(SchemaDef { pos, dirs: d, query, mutation, subscription }) => {
                        v(Leaf::Pos(pos));
                        dirs(d, v);
                        v(Leaf::OptName(query));
                        v(Leaf::OptName(mutation));
                        v(Leaf::OptName(subscription));
                    }
                    SDef::Type(t) => typedef(t, false, v),
                    SDef::Ext(t) => typedef(t, true, v),
                    SDef::Directive(DirDef { pos, desc, name, args, repeatable, locs }) => {
                        v(Leaf::Pos(pos));
                        v(Leaf::Desc(desc));
                        v(Leaf::Name(name));
                        invals(args, v);
                        v(Leaf::Flag(repeatable));
                        locs.iter_mut().for_each(|n| v(Leaf::Loc(n)));
                        v(Leaf::Seq(locs));
                    }
                }
                v(Leaf::Def(d));
            }
            v(Leaf::Seq(&mut s.0));
        }
    }
}

fn name(n: &mut String, g: &mut Gen) {
    match g.t.below(4) {
        0 => n.push('_'),
        1 if n.len() > 1 => {
            n.pop();
        }
        2 => {
            let k = g.t.below(n.len());
            let c = n.as_bytes()[k] as char;
            let c = if c.is_ascii_uppercase() { c.to_ascii_lowercase() } else if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { 'x' };
            n.replace_range(k..=k, &c.to_string());
        }
        _ => *n = g.name(),
    }
}
fn text(s: &mut String, g: &mut Gen) {
    match g.t.below(4) {
        0 => s.push(' '),
        1 => s.push('\n'),
        2 => {
            s.pop();
        }
        _ => *s = g.string(),
    }
}
/// Says something else there; sometimes it comes out the same.
fn change(l: Leaf, g: &mut Gen) -> &'static str {
    match l {
        Leaf::Pos(p) => {
            match g.t.below(3) {
                0 => p.0 += 1,
                1 => p.1 += 1,
                _ => *p = P(p.1, p.0),
            }
            "position"
        }
        Leaf::Name(n) => {
            name(n, g);
            "name"
        }
        Leaf::OptName(n) => {
            match n {
                None => *n = Some(g.name()),
                Some(x) if g.t.chance(1, 2) => name(x, g),
                Some(_) => *n = None,
            }
            "optional name"
        }
        Leaf::Desc(d) => {
            match d {
                None => *d = Some(if g.t.chance(1, 2) { String::new() } else { g.string() }),
                Some(x) if g.t.chance(1, 2) => text(x, g),
                Some(_) => *d = None,
            }
            "description"
        }
        Leaf::Val(v) => {
            match v {
                Val::Int(n) if g.t.chance(2, 3) => {
                    let bits = [16, 64][g.t.below(2)];
                    *n ^= 1 << g.t.below(bits)
                }
                Val::Int(n) => *v = Val::Float(F::new(*n as f64)),
                Val::Float(f) if f.get().fract() == 0.0 && f.get().abs() < 9.2e18 && g.t.chance(1, 2) => *v = Val::Int(f.get() as i64),
                Val::Float(f) if g.t.chance(2, 3) => *f = F(f.0 ^ 1 << g.t.below(52)),
                Val::Float(f) => *v = Val::Str(f.get().to_string()),
                Val::Str(s) if g.t.chance(2, 3) => text(s, g),
                Val::Str(s) if !s.is_empty() => *v = Val::Enum(s.clone()),
                Val::Bool(b) if g.t.chance(1, 2) => *b = !*b,
                Val::Bool(b) => *v = Val::Enum(b.to_string()),
                Val::Null => *v = Val::Enum("null".into()),
                Val::Var(n) | Val::Enum(n) if g.t.chance(1, 3) => name(n, g),
                Val::Var(n) => *v = if g.t.chance(1, 2) { Val::Enum(n.clone()) } else { Val::Str(n.clone()) },
                Val::Enum(n) => *v = if g.t.chance(1, 2) { Val::Var(n.clone()) } else { Val::Str(n.clone()) },
                Val::List(l) if l.len() == 1 => *v = l[0].clone(),
                Val::List(_) => *v = Val::Obj(vec![]),
                Val::Obj(o) if !o.is_empty() => {
                    let k = g.t.below(o.len());
                    o.remove(k);
                }
                _ => *v = Val::List(vec![v.clone()]),
            }
            "value"
        }
        Leaf::OptVal(v) => {
            *v = match v {
                None => Some(Val::Null),
                Some(_) => None,
            };
            "default"
        }
        Leaf::Ty(t) => {
            match t {
                Ty::NonNull(x) => *t = (**x).clone(),
                Ty::List(x) if g.t.chance(1, 2) => *t = (**x).clone(),
                Ty::Named(n) if g.t.chance(1, 2) => name(n, g),
                _ if g.t.chance(1, 2) => *t = Ty::NonNull(Box::new(t.clone())),
                _ => *t = Ty::List(Box::new(t.clone())),
            }
            "type"
        }
        Leaf::Flag(b) => {
            *b = !*b;
            "repeatable"
        }
        Leaf::Kind(k) => {
            *k = match k {
                OpKind::Query => OpKind::Mutation,
                OpKind::Mutation => OpKind::Subscription,
                OpKind::Subscription => OpKind::Query,
            };
            "kind of operation"
        }
        Leaf::Loc(s) => {
            let k = g.t.below(19);
            *s = if k < 7 { EXEC_LOCS[k] } else { TYPE_LOCS[k - 7] }.to_string();
            "location"
        }
        Leaf::Def(d) => {
            match d {
                SDef::Type(t) if t.desc.is_none() => *d = SDef::Ext(t.clone()),
                SDef::Ext(t) => *d = SDef::Type(t.clone()),
                _ => {}
            }
            "definition or extension"
        }
        Leaf::TKind(k) => {
            match k {
                TKind::Object { ifaces, fields } => *k = TKind::Interface { ifaces: ifaces.clone(), fields: fields.clone() },
                TKind::Interface { ifaces, fields } => *k = TKind::Object { ifaces: ifaces.clone(), fields: fields.clone() },
                TKind::Scalar => *k = TKind::Union(vec![]),
                TKind::Union(v) if v.is_empty() => *k = TKind::Enum(vec![]),
                TKind::Enum(v) if v.is_empty() => *k = TKind::Input(vec![]),
                TKind::Input(v) if v.is_empty() => *k = TKind::Scalar,
                _ => {}
            }
            "kind of type"
        }
        Leaf::Seq(s) => {
            let n = s.count();
            if n == 0 {
                return "list";
            }
            let i = g.t.below(n);
            match g.t.below(3) {
                0 if n > 1 => s.swap(i, (i + 1) % n),
                1 => s.twice(i),
                _ => s.remove(i),
            }
            "list"
        }
    }
}

/// One thing changed, or nothing if the change happens to be none. Rare things are as
/// likely to be chosen as common ones.
pub fn edit(d: &mut Doc, g: &mut Gen) -> &'static str {
    let mut kinds = vec![];
    leaves(d, &mut |l| kinds.push(l.kind()));
    let mut distinct = vec![];
    for k in &kinds {
        if !distinct.contains(k) {
            distinct.push(*k);
        }
    }
    if distinct.is_empty() {
        return "";
    }
    let kind = distinct[g.t.below(distinct.len())];
    let mut left = g.t.below(kinds.iter().filter(|k| **k == kind).count());
    let mut what = "";
    leaves(d, &mut |l| {
        if l.kind() != kind || !what.is_empty() {
            return;
        }
        if left == 0 {
            what = change(l, g);
        } else {
            left -= 1;
        }
    });
    what
}
