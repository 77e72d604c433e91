//! Trees to tokens to text, with free choice of spelling and layout, and with the
//! position of every element worked out while writing.

use crate::dict::dict;
use crate::gen::Tape;
use crate::model::*;
use crate::reflex::*;

#[derive(Clone, Debug)]
pub struct ETok {
    pub kind: K,
    pub text: String,
}

pub struct Emit<'t, 'a> {
    pub toks: Vec<ETok>,
    t: &'t mut Tape<'a>,
    /// always the plainest spelling
    plain: bool,
}

/// A quoted literal for `s`: every character raw, as a short escape or as `\u`.
pub fn quote(t: &mut Tape, s: &str, plain: bool) -> String {
    let mut o = String::from("\"");
    // one number decides for how many characters the plainest form is kept
    let fancy = !plain && t.chance(1, 2);
    for c in s.chars() {
        let short = match c {
            '"' => Some("\\\""),
            '\\' => Some("\\\\"),
            '/' => Some("\\/"),
            '\u{8}' => Some("\\b"),
            '\u{c}' => Some("\\f"),
            '\n' => Some("\\n"),
            '\r' => Some("\\r"),
            '\t' => Some("\\t"),
            _ => None,
        };
        let raw = (c >= ' ' || c == '\t') && c != '"' && c != '\\';
        let bmp = (c as u32) < 0x10000;
        let k = if fancy { t.below(4) } else { 0 };
        match k {
            0 | 1 if raw => o.push(c),
            0..=2 if short.is_some() => o.push_str(short.unwrap()),
            _ if bmp => {
                let h = format!("{:04x}", c as u32);
                o.push_str("\\u");
                for (i, x) in h.chars().enumerate() {
                    let up = (k + i) % 2 == 0;
                    o.push(if up { x.to_ascii_uppercase() } else { x });
                }
            }
            _ => o.push(c),
        }
    }
    o.push('"');
    o
}

/// A block literal for `s`, if there is one with the layout chosen.
pub fn blockquote(t: &mut Tape, s: &str) -> Option<String> {
    if s.contains('\r') && t.chance(3, 4) {
        return None;
    }
    let nl = if t.chance(1, 5) { "\r\n" } else { "\n" };
    let indent = *t.pick(&["", "  ", " ", "\t", "    ", "\t\t ", "          "]);
    let inline_first = t.chance(1, 2);
    let lead = t.few(3);
    let trail = t.few(3);
    let mut raw = String::new();
    if !inline_first {
        raw.push_str(nl);
        for i in 0..lead {
            raw.push_str(["", " ", "\t "][i % 3]);
            raw.push_str(nl);
        }
    }
    for (i, l) in s.split('\n').enumerate() {
        if i > 0 {
            raw.push_str(nl);
        }
        if (i > 0 || !inline_first) && (!l.is_empty() || t.chance(1, 3)) {
            raw.push_str(indent);
        }
        raw.push_str(&l.replace("\"\"\"", "\\\"\"\""));
    }
    for i in 0..trail {
        raw.push_str(nl);
        raw.push_str(["  ", "", "\t"][i % 3]);
    }
    let lit = format!("\"\"\"{}\"\"\"", raw);
    let lx = lex(&lit);
    (lx.stop == Stop::Eof && lx.toks.len() == 1 && lx.toks[0].kind == K::Block && decode_block(&lit) == s).then_some(lit)
}

/// Some spelling of a finite double.
pub fn float_lit(t: &mut Tape, x: f64, plain: bool) -> String {
    let ok = |s: &str| classify(s) == Num::Float && s.parse::<f64>().map(f64::to_bits) == Ok(x.to_bits());
    if !plain {
        let k = t.below(7);
        let sci = format!("{:e}", x);
        let (m, e) = sci.split_once('e').unwrap();
        let m2 = if m.contains('.') { m.to_string() } else { format!("{}.0", m) };
        let sign = if e.starts_with('-') { "" } else { "+" };
        let c = match k {
            1 => sci.clone(),
            2 => format!("{}E{}{}", m, sign, e),
            3 => format!("{}e{}{}", m2, sign, e),
            4 => {
                let d = format!("{}", x);
                if d.contains('.') {
                    format!("{}0", d)
                } else {
                    format!("{}.00", d)
                }
            }
            5 => format!("{:?}e+00", x).replacen("e+00", if format!("{:?}", x).contains('e') { "" } else { "e+00" }, 1),
            6 => format!("{}00e-0", m2),
            _ => String::new(),
        };
        if ok(&c) {
            return c;
        }
    }
    let d = format!("{:?}", x);
    if ok(&d) {
        return d;
    }
    let d = format!("{}", x);
    let d = if d.contains('.') { d } else { format!("{}.0", d) };
    assert!(ok(&d), "no literal for {:?}", x);
    d
}

impl<'t, 'a> Emit<'t, 'a> {
    pub fn new(t: &'t mut Tape<'a>) -> Self {
        Emit { toks: vec![], t, plain: false }
    }
    fn here(&self) -> P {
        P(self.toks.len() as u32, 0)
    }
    fn p(&mut self, s: &str) {
        self.toks.push(ETok { kind: K::Punct, text: s.into() });
    }
    fn w(&mut self, s: &str) {
        self.toks.push(ETok { kind: K::Name, text: s.into() });
    }
    fn string(&mut self, s: &str) {
        if self.t.chance(2, 5) {
            if let Some(b) = blockquote(self.t, s) {
                self.toks.push(ETok { kind: K::Block, text: b });
                return;
            }
        }
        let text = quote(self.t, s, self.plain);
        self.toks.push(ETok { kind: K::Str, text });
    }
    fn desc(&mut self, d: &Option<String>) {
        if let Some(d) = d {
            self.string(d);
        }
    }
    pub fn val(&mut self, v: &Val) {
        match v {
            Val::Var(n) => {
                self.p("$");
                self.w(n);
            }
            Val::Int(n) => {
                let s = if *n == 0 && self.t.chance(1, 4) { "-0".to_string() } else { n.to_string() };
                self.toks.push(ETok { kind: K::Int, text: s });
            }
            Val::Float(x) => {
                let text = float_lit(self.t, x.get(), self.plain);
                self.toks.push(ETok { kind: K::Float, text });
            }
            Val::Str(s) => self.string(s),
            Val::Bool(b) => self.w(if *b { "true" } else { "false" }),
            Val::Null => self.w("null"),
            Val::Enum(n) => self.w(n),
            Val::List(l) => {
                self.p("[");
                l.iter().for_each(|x| self.val(x));
                self.p("]");
            }
            Val::Obj(o) => {
                self.p("{");
                for (k, x) in o {
                    self.w(k);
                    self.p(":");
                    self.val(x);
                }
                self.p("}");
            }
        }
    }
    fn args(&mut self, a: &Args) {
        if !a.is_empty() {
            self.p("(");
            for (k, v) in a {
                self.w(k);
                self.p(":");
                self.val(v);
            }
            self.p(")");
        }
    }
    fn dirs(&mut self, d: &mut [Dir]) {
        for d in d {
            d.pos = self.here();
            self.p("@");
            self.w(&d.name);
            self.args(&d.args);
        }
    }
    pub fn ty(&mut self, t: &Ty) {
        match t {
            Ty::Named(n) => self.w(n),
            Ty::List(t) => {
                self.p("[");
                self.ty(t);
                self.p("]");
            }
            Ty::NonNull(t) => {
                self.ty(t);
                self.p("!");
            }
        }
    }
    fn selset(&mut self, s: &mut SelSet) {
        s.start = self.here();
        self.p("{");
        for i in &mut s.items {
            match i {
                Sel::Field(f) => {
                    f.pos = self.here();
                    if let Some(a) = &f.alias {
                        self.w(a);
                        self.p(":");
                    }
                    self.w(&f.name);
                    self.args(&f.args);
                    self.dirs(&mut f.dirs);
                    if f.sel.items.is_empty() {
                        f.sel.start = f.pos;
                        f.sel.end = f.pos;
                    } else {
                        self.selset(&mut f.sel);
                    }
                }
                Sel::Spread { pos, name, dirs } => {
                    self.p("...");
                    *pos = self.here();
                    self.w(name);
                    self.dirs(dirs);
                }
                Sel::Inline { pos, on, dirs, sel } => {
                    self.p("...");
                    *pos = self.here();
                    if let Some(on) = on {
                        self.w("on");
                        self.w(on);
                    }
                    self.dirs(dirs);
                    self.selset(sel);
                }
            }
        }
        s.end = self.here();
        self.p("}");
    }
    pub fn qdef(&mut self, d: &mut QDef) {
        match d {
            QDef::Sel(s) => self.selset(s),
            QDef::Frag(f) => {
                f.pos = self.here();
                self.w("fragment");
                self.w(&f.name);
                self.w("on");
                self.w(&f.on);
                self.dirs(&mut f.dirs);
                self.selset(&mut f.sel);
            }
            QDef::Op(o) => {
                o.pos = self.here();
                self.w(o.kind.word());
                if let Some(n) = &o.name {
                    self.w(n);
                }
                if !o.vars.is_empty() {
                    self.p("(");
                    for v in &mut o.vars {
                        v.pos = self.here();
                        self.p("$");
                        self.w(&v.name);
                        self.p(":");
                        self.ty(&v.ty);
                        if let Some(d) = &v.default {
                            self.p("=");
                            self.val(d);
                        }
                    }
                    self.p(")");
                }
                self.dirs(&mut o.dirs);
                self.selset(&mut o.sel);
            }
        }
    }
    fn inval(&mut self, v: &mut InVal) {
        v.pos = self.here();
        self.desc(&v.desc);
        self.w(&v.name);
        self.p(":");
        self.ty(&v.ty);
        if let Some(d) = &v.default {
            self.p("=");
            self.val(d);
        }
        self.dirs(&mut v.dirs);
    }
    fn invals(&mut self, v: &mut [InVal], open: &str, close: &str) {
        if !v.is_empty() {
            self.p(open);
            v.iter_mut().for_each(|x| self.inval(x));
            self.p(close);
        }
    }
    fn sfields(&mut self, v: &mut [SField]) {
        if v.is_empty() {
            return;
        }
        self.p("{");
        for f in v {
            f.pos = self.here();
            self.desc(&f.desc);
            self.w(&f.name);
            self.invals(&mut f.args, "(", ")");
            self.p(":");
            self.ty(&f.ty);
            self.dirs(&mut f.dirs);
        }
        self.p("}");
    }
    fn separated(&mut self, sep: &str, v: &[String]) {
        if self.t.chance(1, 4) {
            self.p(sep);
        }
        for (i, n) in v.iter().enumerate() {
            if i > 0 {
                self.p(sep);
            }
            self.w(n);
        }
    }
    fn typedef(&mut self, d: &mut TypeDef) {
        self.desc(&d.desc);
        d.pos = self.here();
        self.w(d.kind.word());
        self.w(&d.name);
        if let TKind::Object { ifaces, .. } | TKind::Interface { ifaces, .. } = &d.kind {
            if !ifaces.is_empty() {
                self.w("implements");
                self.separated("&", ifaces);
            }
        }
        self.dirs(&mut d.dirs);
        match &mut d.kind {
            TKind::Scalar => {}
            TKind::Object { fields, .. } | TKind::Interface { fields, .. } => self.sfields(fields),
            TKind::Union(m) => {
                if !m.is_empty() {
                    self.p("=");
                    self.separated("|", m);
                }
            }
            TKind::Enum(v) => {
                if !v.is_empty() {
                    self.p("{");
                    for e in v {
                        e.pos = self.here();
                        self.desc(&e.desc);
                        self.w(&e.name);
                        self.dirs(&mut e.dirs);
                    }
                    self.p("}");
                }
            }
            TKind::Input(f) => self.invals(f, "{", "}"),
        }
    }
    pub fn sdef(&mut self, d: &mut SDef) {
        match d {
            SDef::Schema(s) => {
                s.pos = self.here();
                self.w("schema");
                self.dirs(&mut s.dirs);
                self.p("{");
                let mut ops = vec![("query", &s.query), ("mutation", &s.mutation), ("subscription", &s.subscription)];
                while !ops.is_empty() {
                    let i = self.t.below(ops.len());
                    let (k, v) = ops.remove(i);
                    if let Some(v) = v {
                        self.w(k);
                        self.p(":");
                        self.w(v);
                    }
                }
                self.p("}");
            }
            SDef::Type(t) => self.typedef(t),
            SDef::Ext(t) => {
                self.w("extend");
                self.typedef(t);
            }
            SDef::Directive(d) => {
                self.desc(&d.desc);
                d.pos = self.here();
                self.w("directive");
                self.p("@");
                self.w(&d.name);
                self.invals(&mut d.args, "(", ")");
                if d.repeatable {
                    self.w("repeatable");
                }
                self.w("on");
                self.separated("|", &d.locs);
            }
        }
    }
    pub fn doc(&mut self, d: &mut Doc) {
        match d {
            Doc::Q(q) => q.0.iter_mut().for_each(|x| self.qdef(x)),
            Doc::S(s) => s.0.iter_mut().for_each(|x| self.sdef(x)),
        }
    }
}

// ---- layout ----

/// Writes text and knows where it is.
#[derive(Default)]
pub struct Out {
    pub s: String,
    line: u32,
    col: u32,
}
impl Out {
    pub fn new() -> Out {
        Out { s: String::new(), line: 1, col: 1 }
    }
    pub fn pos(&self) -> P {
        P(self.line, self.col)
    }
    pub fn token(&mut self, t: &str) {
        for c in t.chars() {
            self.s.push(c);
            if c == '\n' {
                self.line += 1;
                self.col = 1;
            } else {
                self.col += 1;
            }
        }
    }
    pub fn space(&mut self) {
        self.s.push(' ');
        self.col += 1;
    }
    pub fn comma(&mut self) {
        self.s.push(',');
        self.col += 1;
    }
    pub fn tab(&mut self) {
        self.s.push('\t');
        self.col += 8;
    }
    pub fn newline(&mut self, cr: bool) {
        self.s.push_str(if cr { "\r\n" } else { "\n" });
        self.line += 1;
        self.col = 1;
    }
    pub fn bom(&mut self) {
        self.s.push('\u{feff}');
    }
    pub fn comment(&mut self, body: &str, cr: bool) {
        self.s.push('#');
        self.s.push_str(body);
        self.newline(cr);
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Layout {
    /// one space or nothing
    Plain,
    Free,
    /// also carriage returns on their own
    FreeCr,
}

const COMMENTS: [&str; 14] = [
    "", " a comment", " \"unclosed", "\"\"\" block", " { ( [", " é中😀", "\u{feff}", " } ] )", ",,, # #", "\\", "\t", " \u{85}\u{2028} not a line end",
    "query { a }", " \u{b}\u{c}",
];

/// What a comment says.
fn comment(t: &mut Tape) -> String {
    if t.chance(1, 12) {
        let n = if t.chance(1, 4) { dict().size(t, 300).unwrap_or(1) } else { 1 };
        let s = dict().string(t).unwrap_or_default();
        let s = if s.len() * n > 2000 { s } else { s.repeat(n) };
        return s.replace(['\n', '\r'], " ");
    }
    t.pick(&COMMENTS).to_string()
}
/// As many of one ignored character as the source of the crate has reason to count.
fn run_of(o: &mut Out, t: &mut Tape, must: bool) {
    let n = dict().size(t, 600).unwrap_or(20);
    let k = t.below(5);
    if n == 0 || k == 4 {
        if must {
            o.space();
        }
    }
    for _ in 0..n {
        match k {
            0 => o.space(),
            1 => o.newline(false),
            2 => o.tab(),
            3 => o.comma(),
            _ => o.bom(),
        }
    }
}
/// One stretch of ignored characters; `must` when it may not be empty.
pub fn trivia(o: &mut Out, t: &mut Tape, must: bool, layout: Layout) {
    if layout == Layout::Plain {
        if must {
            o.space();
        }
        return;
    }
    let n = match t.weighted(&[80, 80, 40, 20, 9, 1]) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 4,
        4 => 12,
        _ => return run_of(o, t, must),
    };
    if n == 0 && must {
        o.space();
    }
    for i in 0..n {
        match t.weighted(&[8, 5, 4, 3, 2, 3, 1, if layout == Layout::FreeCr { 2 } else { 0 }]) {
            0 => o.space(),
            1 => o.newline(false),
            2 => o.comma(),
            3 => {
                let b = comment(t);
                let cr = t.chance(1, 3);
                o.comment(&b, cr);
            }
            4 => o.tab(),
            5 => o.newline(true),
            6 => o.bom(),
            _ => {
                o.s.push('\r');
                if i + 1 == n {
                    o.space();
                }
            }
        }
    }
}

/// The text, where each token starts, and the position and offset after the last.
pub struct Rendered {
    pub text: String,
    pub pos: Vec<P>,
    pub off: Vec<usize>,
    pub end: P,
}

pub fn render(toks: &[ETok], t: &mut Tape, layout: Layout) -> Rendered {
    let mut o = Out::new();
    let mut pos = Vec::with_capacity(toks.len());
    let mut off = Vec::with_capacity(toks.len());
    for (i, k) in toks.iter().enumerate() {
        let must = i > 0 && !may_touch((toks[i - 1].kind, &toks[i - 1].text), (k.kind, &k.text));
        if i == 0 && layout == Layout::Plain {
        } else if i == 0 && t.chance(1, 2) {
        } else {
            trivia(&mut o, t, must, layout);
        }
        pos.push(o.pos());
        off.push(o.s.len());
        o.token(&k.text);
    }
    if layout != Layout::Plain && t.chance(1, 2) {
        trivia(&mut o, t, false, layout);
        if t.chance(1, 10) {
            let b = comment(t);
            o.s.push('#');
            o.s.push_str(&b);
        }
    }
    Rendered { end: o.pos(), text: o.s, pos, off }
}

/// Emits and renders a generated document; on return the document's positions are those
/// of the text.
pub fn write_doc(d: &mut Doc, t: &mut Tape, layout: Layout) -> (Rendered, Vec<ETok>) {
    let mut e = Emit::new(t);
    e.plain = layout == Layout::Plain;
    e.doc(d);
    let toks = e.toks;
    let r = render(&toks, t, layout);
    d.map_pos(&mut |p| *p = r.pos[p.0 as usize]);
    (r, toks)
}
