//! The canonical layout, written down a second time. Literals are left as marks, `"` for
//! a string and `#` for a number, since the layout does not say how they are spelled; the
//! values they must have are listed beside the text.

use crate::model::*;
use crate::reflex::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Sty {
    pub indent: u32,
    pub multi: bool,
}
pub const DEFAULT: Sty = Sty { indent: 2, multi: false };

pub struct RefP {
    pub s: String,
    pub lits: Vec<Val>,
    sty: Sty,
    level: u32,
}

impl RefP {
    pub fn new(sty: Sty) -> RefP {
        RefP { s: String::new(), lits: vec![], sty, level: 0 }
    }
    fn pad(&mut self) {
        for _ in 0..self.level * self.sty.indent {
            self.s.push(' ');
        }
    }
    fn w(&mut self, s: &str) {
        self.s.push_str(s);
    }
    fn nl(&mut self) {
        self.s.push('\n');
    }
    fn open(&mut self) {
        self.w("{\n");
        self.level += 1;
    }
    fn close(&mut self) {
        self.level -= 1;
        self.pad();
        self.w("}\n");
    }
    fn string(&mut self, s: &str) {
        self.w("\"");
        self.lits.push(Val::Str(s.to_string()));
    }
    /// bracketed items, on one line or one line each
    fn items<T>(&mut self, open: &str, close: &str, v: &[T], mut f: impl FnMut(&mut Self, &T)) {
        self.w(open);
        if self.sty.multi {
            self.level += 1;
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    self.w(",");
                }
                self.nl();
                self.pad();
                f(self, x);
            }
            self.level -= 1;
            self.nl();
            self.pad();
        } else {
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    self.w(", ");
                }
                f(self, x);
            }
        }
        self.w(close);
    }
    pub fn val(&mut self, v: &Val) {
        match v {
            Val::Var(n) => {
                self.w("$");
                self.w(n);
            }
            Val::Int(_) | Val::Float(_) => {
                self.w("#");
                self.lits.push(v.clone());
            }
            Val::Str(s) => self.string(s),
            Val::Bool(b) => self.w(if *b { "true" } else { "false" }),
            Val::Null => self.w("null"),
            Val::Enum(n) => self.w(n),
            Val::List(l) => self.items("[", "]", l, |me, x| me.val(x)),
            Val::Obj(o) => {
                let mut o: Vec<&(String, Val)> = o.iter().collect();
                o.sort_by(|a, b| a.0.as_bytes().cmp(b.0.as_bytes()));
                self.items("{", "}", &o, |me, x| {
                    me.w(&x.0);
                    me.w(": ");
                    me.val(&x.1);
                })
            }
        }
    }
    fn args(&mut self, a: &Args) {
        if !a.is_empty() {
            self.items("(", ")", a, |me, x| {
                me.w(&x.0);
                me.w(": ");
                me.val(&x.1);
            });
        }
    }
    pub fn dir(&mut self, d: &Dir) {
        self.w("@");
        self.w(&d.name);
        self.args(&d.args);
    }
    fn dirs(&mut self, d: &[Dir]) {
        for d in d {
            self.w(" ");
            self.dir(d);
        }
    }
    pub fn ty(&mut self, t: &Ty) {
        match t {
            Ty::Named(n) => self.w(n),
            Ty::List(t) => {
                self.w("[");
                self.ty(t);
                self.w("]");
            }
            Ty::NonNull(t) => {
                self.ty(t);
                self.w("!");
            }
        }
    }
    pub fn selset(&mut self, s: &SelSet) {
        self.open();
        for i in &s.items {
            self.sel(i);
        }
        self.close();
    }
    pub fn sel(&mut self, s: &Sel) {
        self.pad();
        match s {
            Sel::Field(f) => {
                if let Some(a) = &f.alias {
                    self.w(a);
                    self.w(": ");
                }
                self.w(&f.name);
                self.args(&f.args);
                self.dirs(&f.dirs);
                if f.sel.items.is_empty() {
                    self.nl();
                } else {
                    self.w(" ");
                    self.selset(&f.sel);
                }
            }
            Sel::Spread { name, dirs, .. } => {
                self.w("...");
                self.w(name);
                self.dirs(dirs);
                self.nl();
            }
            Sel::Inline { on, dirs, sel, .. } => {
                self.w("...");
                if let Some(on) = on {
                    self.w(" on ");
                    self.w(on);
                }
                self.dirs(dirs);
                self.w(" ");
                self.selset(sel);
            }
        }
    }
    pub fn var(&mut self, v: &VarDef) {
        self.w("$");
        self.w(&v.name);
        self.w(": ");
        self.ty(&v.ty);
        if let Some(d) = &v.default {
            self.w(" = ");
            self.val(d);
        }
    }
    pub fn qdef(&mut self, d: &QDef) {
        match d {
            QDef::Sel(s) => self.selset(s),
            QDef::Frag(f) => {
                self.w("fragment ");
                self.w(&f.name);
                self.w(" on ");
                self.w(&f.on);
                self.dirs(&f.dirs);
                self.w(" ");
                self.selset(&f.sel);
            }
            QDef::Op(o) => {
                self.w(o.kind.word());
                if let Some(n) = &o.name {
                    self.w(" ");
                    self.w(n);
                }
                if !o.vars.is_empty() {
                    self.w("(");
                    for (i, v) in o.vars.iter().enumerate() {
                        if i > 0 {
                            self.w(", ");
                        }
                        self.var(v);
                    }
                    self.w(")");
                }
                self.dirs(&o.dirs);
                self.w(" ");
                self.selset(&o.sel);
            }
        }
    }
    fn desc(&mut self, d: &Option<String>) {
        if let Some(d) = d {
            self.pad();
            self.string(d);
            self.nl();
        }
    }
    fn inline_desc(&mut self, d: &Option<String>) {
        if let Some(d) = d {
            self.string(d);
            self.w(" ");
        }
    }
    pub fn inval(&mut self, v: &InVal) {
        self.inline_desc(&v.desc);
        self.w(&v.name);
        self.w(": ");
        self.ty(&v.ty);
        if let Some(d) = &v.default {
            self.w(" = ");
            self.val(d);
        }
        self.dirs(&v.dirs);
    }
    fn invals(&mut self, v: &[InVal]) {
        if !v.is_empty() {
            self.w("(");
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    self.w(", ");
                }
                self.inval(x);
            }
            self.w(")");
        }
    }
    pub fn sfield(&mut self, f: &SField) {
        self.desc(&f.desc);
        self.pad();
        self.w(&f.name);
        self.invals(&f.args);
        self.w(": ");
        self.ty(&f.ty);
        self.dirs(&f.dirs);
        self.nl();
    }
    fn names(&mut self, lead: &str, sep: &str, v: &[String]) {
        if !v.is_empty() {
            self.w(lead);
            self.w(&v.join(sep));
        }
    }
    fn block<T>(&mut self, v: &[T], mut f: impl FnMut(&mut Self, &T)) {
        if v.is_empty() {
            self.nl();
        } else {
            self.w(" ");
            self.open();
            for x in v {
                f(self, x);
            }
            self.close();
        }
    }
    pub fn typedef(&mut self, t: &TypeDef, ext: bool) {
        self.desc(&t.desc);
        if ext {
            self.w("extend ");
        }
        self.w(t.kind.word());
        self.w(" ");
        self.w(&t.name);
        if let TKind::Object { ifaces, .. } | TKind::Interface { ifaces, .. } = &t.kind {
            self.names(" implements ", " & ", ifaces);
        }
        self.dirs(&t.dirs);
        match &t.kind {
            TKind::Scalar => self.nl(),
            TKind::Object { fields, .. } | TKind::Interface { fields, .. } => self.block(fields, |me, f| me.sfield(f)),
            TKind::Union(m) => {
                self.names(" = ", " | ", m);
                self.nl();
            }
            TKind::Enum(v) => self.block(v, |me, e| {
                me.pad();
                me.inline_desc(&e.desc);
                me.w(&e.name);
                me.dirs(&e.dirs);
                me.nl();
            }),
            TKind::Input(f) => self.block(f, |me, x| {
                me.pad();
                me.inval(x);
                me.nl();
            }),
        }
    }
    pub fn sdef(&mut self, d: &SDef) {
        match d {
            SDef::Schema(s) => {
                self.w("schema");
                self.dirs(&s.dirs);
                self.w(" ");
                self.open();
                for (k, v) in [("query", &s.query), ("mutation", &s.mutation), ("subscription", &s.subscription)] {
                    if let Some(v) = v {
                        self.pad();
                        self.w(k);
                        self.w(": ");
                        self.w(v);
                        self.nl();
                    }
                }
                self.close();
            }
            SDef::Type(t) => self.typedef(t, false),
            SDef::Ext(t) => self.typedef(t, true),
            SDef::Directive(d) => {
                self.desc(&d.desc);
                self.w("directive @");
                self.w(&d.name);
                self.invals(&d.args);
                if d.repeatable {
                    self.w(" repeatable");
                }
                self.names(" on ", " | ", &d.locs);
                self.nl();
            }
        }
    }
    pub fn doc(&mut self, d: &Doc) {
        match d {
            Doc::Q(q) => {
                for (i, x) in q.0.iter().enumerate() {
                    if i > 0 {
                        self.nl();
                    }
                    self.qdef(x);
                }
            }
            Doc::S(s) => {
                for (i, x) in s.0.iter().enumerate() {
                    if i > 0 {
                        self.nl();
                    }
                    self.sdef(x);
                }
            }
        }
    }
}

fn same_literal(tok: &Tok, want: &Val) -> bool {
    match (tok.kind, want) {
        (K::Str, Val::Str(s)) => decode_quoted(tok.text).as_ref() == Some(s),
        (K::Block, Val::Str(s)) => &decode_block(tok.text) == s,
        (K::Int, Val::Int(n)) => tok.text.parse() == Ok(*n),
        // an integral float may be written without a point
        (K::Int, Val::Float(f)) => tok.text.parse().is_ok_and(|n| is_double(n, *f)),
        (K::Float, Val::Float(f)) => tok.text.parse::<f64>().map(f64::to_bits) == Ok(f.0),
        _ => false,
    }
}

/// Compares printed text with the reference layout.
pub fn compare(printed: &str, want: &RefP) -> Result<(), String> {
    let lx = lex_limit(printed, usize::MAX >> 1);
    if lx.stop != Stop::Eof {
        return Err(format!("printed text cannot be split into tokens at {:?}", lx.stop_pos));
    }
    let mut sk = String::with_capacity(printed.len());
    let mut from = 0;
    let mut n = 0;
    let mut bad = None;
    for t in &lx.toks {
        let mark = match t.kind {
            K::Str | K::Block => "\"",
            K::Int | K::Float => "#",
            _ => continue,
        };
        sk.push_str(&printed[from..t.start]);
        sk.push_str(mark);
        from = t.start + t.text.len();
        if bad.is_none() {
            match want.lits.get(n) {
                Some(v) if same_literal(t, v) => {}
                v => bad = Some(format!("literal {} is printed as {} where {:?} is meant", n, t.text, v)),
            }
        }
        n += 1;
    }
    sk.push_str(&printed[from..]);
    if sk != want.s {
        let at = sk.bytes().zip(want.s.bytes()).take_while(|(a, b)| a == b).count();
        let cut = |s: &str| -> String {
            let mut a = at.saturating_sub(30);
            while !s.is_char_boundary(a) {
                a -= 1;
            }
            s[a..].chars().take(80).collect()
        };
        return Err(format!("layout differs: printed ...{:?} where the layout has ...{:?}", cut(&sk), cut(&want.s)));
    }
    if let Some(b) = bad {
        return Err(b);
    }
    if n != want.lits.len() {
        return Err(format!("{} literals printed for {}", n, want.lits.len()));
    }
    Ok(())
}
