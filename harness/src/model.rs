//! The reference tree: what a GraphQL document says, independent of the crate's AST types.

#[derive(Clone, Copy, PartialEq, Eq, Default, Hash, PartialOrd, Ord)]
pub struct P(pub u32, pub u32);

impl std::fmt::Debug for P {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}:{}", self.0, self.1)
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Val {
    Var(String),
    Int(i64),
    /// bits of the double, so that equality is exact
    Float(F),
    Str(String),
    Bool(bool),
    Null,
    Enum(String),
    List(Vec<Val>),
    /// as written; `norm` makes it a map
    Obj(Vec<(String, Val)>),
}

#[derive(Clone, Copy, PartialEq)]
pub struct F(pub u64);
impl F {
    pub fn new(x: f64) -> F {
        F(x.to_bits())
    }
    pub fn get(self) -> f64 {
        f64::from_bits(self.0)
    }
}
impl std::fmt::Debug for F {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{:?}", self.get())
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Ty {
    Named(String),
    List(Box<Ty>),
    NonNull(Box<Ty>),
}

pub type Args = Vec<(String, Val)>;

#[derive(Clone, PartialEq, Debug)]
pub struct Dir {
    pub pos: P,
    pub name: String,
    pub args: Args,
}

#[derive(Clone, PartialEq, Debug)]
pub struct QDoc(pub Vec<QDef>);

#[derive(Clone, PartialEq, Debug)]
pub enum QDef {
    Sel(SelSet),
    Op(Op),
    Frag(Frag),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum OpKind {
    Query,
    Mutation,
    Subscription,
}
impl OpKind {
    pub fn word(self) -> &'static str {
        match self {
            OpKind::Query => "query",
            OpKind::Mutation => "mutation",
            OpKind::Subscription => "subscription",
        }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub struct Op {
    pub kind: OpKind,
    pub pos: P,
    pub name: Option<String>,
    pub vars: Vec<VarDef>,
    pub dirs: Vec<Dir>,
    pub sel: SelSet,
}

#[derive(Clone, PartialEq, Debug)]
pub struct Frag {
    pub pos: P,
    pub name: String,
    pub on: String,
    pub dirs: Vec<Dir>,
    pub sel: SelSet,
}

#[derive(Clone, PartialEq, Debug)]
pub struct SelSet {
    pub start: P,
    pub end: P,
    pub items: Vec<Sel>,
}

#[derive(Clone, PartialEq, Debug)]
pub enum Sel {
    Field(QField),
    Spread { pos: P, name: String, dirs: Vec<Dir> },
    Inline { pos: P, on: Option<String>, dirs: Vec<Dir>, sel: SelSet },
}

#[derive(Clone, PartialEq, Debug)]
pub struct QField {
    pub pos: P,
    pub alias: Option<String>,
    pub name: String,
    pub args: Args,
    pub dirs: Vec<Dir>,
    pub sel: SelSet,
}

#[derive(Clone, PartialEq, Debug)]
pub struct VarDef {
    pub pos: P,
    pub name: String,
    pub ty: Ty,
    pub default: Option<Val>,
}

#[derive(Clone, PartialEq, Debug)]
pub struct SDoc(pub Vec<SDef>);

#[derive(Clone, PartialEq, Debug)]
pub enum SDef {
    Schema(SchemaDef),
    Type(TypeDef),
    Ext(TypeDef),
    Directive(DirDef),
}

#[derive(Clone, PartialEq, Debug)]
pub struct SchemaDef {
    pub pos: P,
    pub dirs: Vec<Dir>,
    pub query: Option<String>,
    pub mutation: Option<String>,
    pub subscription: Option<String>,
}

/// A type definition, or (with no description) a type extension.
#[derive(Clone, PartialEq, Debug)]
pub struct TypeDef {
    pub pos: P,
    pub desc: Option<String>,
    pub name: String,
    pub dirs: Vec<Dir>,
    pub kind: TKind,
}

#[derive(Clone, PartialEq, Debug)]
pub enum TKind {
    Scalar,
    Object { ifaces: Vec<String>, fields: Vec<SField> },
    Interface { ifaces: Vec<String>, fields: Vec<SField> },
    Union(Vec<String>),
    Enum(Vec<EnumVal>),
    Input(Vec<InVal>),
}
impl TKind {
    pub fn word(&self) -> &'static str {
        match self {
            TKind::Scalar => "scalar",
            TKind::Object { .. } => "type",
            TKind::Interface { .. } => "interface",
            TKind::Union(_) => "union",
            TKind::Enum(_) => "enum",
            TKind::Input(_) => "input",
        }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub struct SField {
    pub pos: P,
    pub desc: Option<String>,
    pub name: String,
    pub args: Vec<InVal>,
    pub ty: Ty,
    pub dirs: Vec<Dir>,
}

#[derive(Clone, PartialEq, Debug)]
pub struct InVal {
    pub pos: P,
    pub desc: Option<String>,
    pub name: String,
    pub ty: Ty,
    pub default: Option<Val>,
    pub dirs: Vec<Dir>,
}

#[derive(Clone, PartialEq, Debug)]
pub struct EnumVal {
    pub pos: P,
    pub desc: Option<String>,
    pub name: String,
    pub dirs: Vec<Dir>,
}

#[derive(Clone, PartialEq, Debug)]
pub struct DirDef {
    pub pos: P,
    pub desc: Option<String>,
    pub name: String,
    pub args: Vec<InVal>,
    pub repeatable: bool,
    pub locs: Vec<String>,
}

pub const EXEC_LOCS: [&str; 7] = [
    "QUERY",
    "MUTATION",
    "SUBSCRIPTION",
    "FIELD",
    "FRAGMENT_DEFINITION",
    "FRAGMENT_SPREAD",
    "INLINE_FRAGMENT",
];
pub const TYPE_LOCS: [&str; 12] = [
    "SCHEMA",
    "SCALAR",
    "OBJECT",
    "FIELD_DEFINITION",
    "ARGUMENT_DEFINITION",
    "INTERFACE",
    "UNION",
    "ENUM",
    "ENUM_VALUE",
    "INPUT_OBJECT",
    "INPUT_FIELD_DEFINITION",
    "VARIABLE_DEFINITION",
];

#[derive(Clone, PartialEq, Debug)]
pub enum Doc {
    Q(QDoc),
    S(SDoc),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Lang {
    Query,
    Schema,
}
impl Lang {
    pub fn name(self) -> &'static str {
        match self {
            Lang::Query => "query",
            Lang::Schema => "schema",
        }
    }
    pub fn from_name(s: &str) -> Lang {
        if s == "schema" {
            Lang::Schema
        } else {
            Lang::Query
        }
    }
}

/// Calls back for every position and every value in a tree.
pub struct Walk<'f> {
    pub pos: &'f mut dyn FnMut(&mut P),
    pub val: &'f mut dyn FnMut(&mut Val),
    pub desc: &'f mut dyn FnMut(&mut String),
}

impl<'f> Walk<'f> {
    fn value(&mut self, v: &mut Val) {
        match v {
            Val::List(l) => l.iter_mut().for_each(|x| self.value(x)),
            Val::Obj(o) => o.iter_mut().for_each(|x| self.value(&mut x.1)),
            _ => {}
        }
        (self.val)(v);
    }
    fn dirs(&mut self, d: &mut [Dir]) {
        for d in d {
            (self.pos)(&mut d.pos);
            self.args(&mut d.args);
        }
    }
    fn args(&mut self, a: &mut Args) {
        a.iter_mut().for_each(|x| self.value(&mut x.1));
    }
    fn sel(&mut self, s: &mut SelSet) {
        (self.pos)(&mut s.start);
        for it in &mut s.items {
            match it {
                Sel::Field(f) => {
                    (self.pos)(&mut f.pos);
                    self.args(&mut f.args);
                    self.dirs(&mut f.dirs);
                    self.sel(&mut f.sel);
                }
                Sel::Spread { pos, dirs, .. } => {
                    (self.pos)(pos);
                    self.dirs(dirs);
                }
                Sel::Inline { pos, dirs, sel, .. } => {
                    (self.pos)(pos);
                    self.dirs(dirs);
                    self.sel(sel);
                }
            }
        }
        (self.pos)(&mut s.end);
    }
    fn invals(&mut self, v: &mut [InVal]) {
        for a in v {
            (self.pos)(&mut a.pos);
            self.opt_desc(&mut a.desc);
            if let Some(d) = &mut a.default {
                self.value(d);
            }
            self.dirs(&mut a.dirs);
        }
    }
    fn opt_desc(&mut self, d: &mut Option<String>) {
        if let Some(d) = d {
            (self.desc)(d);
        }
    }
    fn fields(&mut self, v: &mut [SField]) {
        for a in v {
            (self.pos)(&mut a.pos);
            self.opt_desc(&mut a.desc);
            self.invals(&mut a.args);
            self.dirs(&mut a.dirs);
        }
    }
    fn typedef(&mut self, t: &mut TypeDef) {
        (self.pos)(&mut t.pos);
        self.opt_desc(&mut t.desc);
        self.dirs(&mut t.dirs);
        match &mut t.kind {
            TKind::Scalar | TKind::Union(_) => {}
            TKind::Object { fields, .. } | TKind::Interface { fields, .. } => self.fields(fields),
            TKind::Enum(vs) => {
                for v in vs {
                    (self.pos)(&mut v.pos);
                    self.opt_desc(&mut v.desc);
                    self.dirs(&mut v.dirs);
                }
            }
            TKind::Input(f) => self.invals(f),
        }
    }
    pub fn qdef(&mut self, d: &mut QDef) {
        match d {
            QDef::Sel(s) => self.sel(s),
            QDef::Op(o) => {
                (self.pos)(&mut o.pos);
                for v in &mut o.vars {
                    (self.pos)(&mut v.pos);
                    if let Some(d) = &mut v.default {
                        self.value(d);
                    }
                }
                self.dirs(&mut o.dirs);
                self.sel(&mut o.sel);
            }
            QDef::Frag(f) => {
                (self.pos)(&mut f.pos);
                self.dirs(&mut f.dirs);
                self.sel(&mut f.sel);
            }
        }
    }
    pub fn sdef(&mut self, d: &mut SDef) {
        match d {
            SDef::Schema(s) => {
                (self.pos)(&mut s.pos);
                self.dirs(&mut s.dirs);
            }
            SDef::Type(t) | SDef::Ext(t) => self.typedef(t),
            SDef::Directive(d) => {
                (self.pos)(&mut d.pos);
                self.opt_desc(&mut d.desc);
                self.invals(&mut d.args);
            }
        }
    }
    pub fn doc(&mut self, d: &mut Doc) {
        match d {
            Doc::Q(q) => q.0.iter_mut().for_each(|x| self.qdef(x)),
            Doc::S(s) => s.0.iter_mut().for_each(|x| self.sdef(x)),
        }
    }
}

/// Makes object values the map they denote: sorted keys, the last duplicate kept.
fn norm_val(v: &mut Val) {
    if let Val::Obj(o) = v {
        let mut out: Vec<(String, Val)> = Vec::new();
        for (k, x) in o.drain(..) {
            match out.binary_search_by(|p| p.0.as_bytes().cmp(k.as_bytes())) {
                Ok(i) => out[i].1 = x,
                Err(i) => out.insert(i, (k, x)),
            }
        }
        *o = out;
    }
}

impl Doc {
    pub fn map_pos(&mut self, f: &mut dyn FnMut(&mut P)) {
        Walk { pos: f, val: &mut |_| {}, desc: &mut |_| {} }.doc(self)
    }
    pub fn map_val(&mut self, f: &mut dyn FnMut(&mut Val)) {
        Walk { pos: &mut |_| {}, val: f, desc: &mut |_| {} }.doc(self)
    }
    pub fn map_desc(&mut self, f: &mut dyn FnMut(&mut String)) {
        Walk { pos: &mut |_| {}, val: &mut |_| {}, desc: f }.doc(self)
    }
    pub fn strip(mut self) -> Doc {
        self.map_pos(&mut |p| *p = P(0, 0));
        self
    }
    pub fn norm(mut self) -> Doc {
        self.map_val(&mut norm_val);
        self
    }
    /// Takes an integer that denotes the very double the other tree has in its place for
    /// that float: what the printed form of an integral float reads back as.
    pub fn adopt_floats(mut self, of: &Doc) -> Doc {
        let mut vals = Vec::new();
        of.clone().map_val(&mut |v| vals.push(v.clone()));
        let mut vals = vals.into_iter();
        self.map_val(&mut |v| {
            if let (Val::Int(n), Some(Val::Float(f))) = (&*v, vals.next()) {
                if is_double(*n, f) {
                    *v = Val::Float(f);
                }
            }
        });
        self
    }
    pub fn len(&self) -> usize {
        match self {
            Doc::Q(q) => q.0.len(),
            Doc::S(s) => s.0.len(),
        }
    }
    pub fn lang(&self) -> Lang {
        match self {
            Doc::Q(_) => Lang::Query,
            Doc::S(_) => Lang::Schema,
        }
    }
}

/// Is this integer, as a double, that double (signed zeros told apart)?
pub fn is_double(n: i64, f: F) -> bool {
    (n as f64).to_bits() == f.0
}
