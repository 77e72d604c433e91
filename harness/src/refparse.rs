//! Reference parser: plain recursive descent over the reference lexer's tokens.
//! The grammar is that of the GraphQL specification as far as the crate's tree can hold
//! it; DESIGN.md lists where the two differ.

use crate::model::*;
use crate::reflex::*;

pub struct RP<'a> {
    lx: Lexed<'a>,
    i: usize,
}

/// Where the document stops being one, and why.
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Reject {
    pub pos: P,
    pub why: Why,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Why {
    Token,
    End,
    Lex,
    TooDeep,
    Literal,
    Whole,
}

type R<T> = Result<T, Reject>;

impl<'a> RP<'a> {
    pub fn new(text: &'a str) -> RP<'a> {
        RP { lx: lex(text), i: 0 }
    }
    fn peek(&self) -> Option<&Tok<'a>> {
        self.lx.toks.get(self.i)
    }
    fn here(&self) -> P {
        self.peek().map_or(self.lx.stop_pos, |t| t.pos)
    }
    fn fail<T>(&self) -> R<T> {
        let why = match self.peek() {
            Some(_) => Why::Token,
            None => match self.lx.stop {
                Stop::Eof => Why::End,
                Stop::Bad => Why::Lex,
                Stop::TooDeep => Why::TooDeep,
            },
        };
        Err(Reject { pos: self.here(), why })
    }
    fn is_p(&self, s: &str) -> bool {
        self.peek().is_some_and(|t| t.kind == K::Punct && t.text == s)
    }
    fn is_w(&self, s: &str) -> bool {
        self.peek().is_some_and(|t| t.kind == K::Name && t.text == s)
    }
    fn is_name(&self) -> bool {
        self.peek().is_some_and(|t| t.kind == K::Name)
    }
    fn is_string(&self) -> bool {
        self.peek().is_some_and(|t| matches!(t.kind, K::Str | K::Block))
    }
    fn eat_p(&mut self, s: &str) -> bool {
        let y = self.is_p(s);
        self.i += y as usize;
        y
    }
    fn eat_w(&mut self, s: &str) -> bool {
        let y = self.is_w(s);
        self.i += y as usize;
        y
    }
    fn p(&mut self, s: &str) -> R<()> {
        if self.eat_p(s) {
            Ok(())
        } else {
            self.fail()
        }
    }
    fn w(&mut self, s: &str) -> R<()> {
        if self.eat_w(s) {
            Ok(())
        } else {
            self.fail()
        }
    }
    fn name(&mut self) -> R<String> {
        if self.is_name() {
            self.i += 1;
            Ok(self.lx.toks[self.i - 1].text.to_string())
        } else {
            self.fail()
        }
    }
    fn literal_err<T>(&self) -> R<T> {
        Err(Reject { pos: self.here(), why: Why::Literal })
    }
    fn string(&mut self) -> R<String> {
        let t = match self.peek() {
            Some(t) if matches!(t.kind, K::Str | K::Block) => *t,
            _ => return self.fail(),
        };
        let v = if t.kind == K::Block { Some(decode_block(t.text)) } else { decode_quoted(t.text) };
        match v {
            Some(v) => {
                self.i += 1;
                Ok(v)
            }
            None => self.literal_err(),
        }
    }
    fn desc(&mut self) -> R<Option<String>> {
        if self.is_string() {
            self.string().map(Some)
        } else {
            Ok(None)
        }
    }

    fn value(&mut self, constant: bool) -> R<Val> {
        let t = match self.peek() {
            Some(t) => *t,
            None => return self.fail(),
        };
        Ok(match (t.kind, t.text) {
            (K::Name, w) => {
                self.i += 1;
                match w {
                    "true" => Val::Bool(true),
                    "false" => Val::Bool(false),
                    "null" => Val::Null,
                    _ => Val::Enum(w.to_string()),
                }
            }
            (K::Int, s) => match s.parse::<i64>() {
                Ok(n) => {
                    self.i += 1;
                    Val::Int(n)
                }
                Err(_) => return self.literal_err(),
            },
            (K::Float, s) => match s.parse::<f64>() {
                Ok(x) if x.is_finite() => {
                    self.i += 1;
                    Val::Float(F::new(x))
                }
                _ => return self.literal_err(),
            },
            (K::Str, _) | (K::Block, _) => Val::Str(self.string()?),
            (K::Punct, "$") if !constant => {
                self.i += 1;
                Val::Var(self.name()?)
            }
            (K::Punct, "[") => {
                self.i += 1;
                let mut l = Vec::new();
                while !self.eat_p("]") {
                    l.push(self.value(constant)?);
                }
                Val::List(l)
            }
            (K::Punct, "{") => {
                self.i += 1;
                let mut l = Vec::new();
                while !self.eat_p("}") {
                    let k = self.name()?;
                    self.p(":")?;
                    l.push((k, self.value(constant)?));
                }
                Val::Obj(l)
            }
            _ => return self.fail(),
        })
    }
    fn args(&mut self) -> R<Args> {
        let mut a = Vec::new();
        if self.eat_p("(") {
            loop {
                let k = self.name()?;
                self.p(":")?;
                a.push((k, self.value(false)?));
                if self.eat_p(")") {
                    break;
                }
            }
        }
        Ok(a)
    }
    fn dirs(&mut self) -> R<Vec<Dir>> {
        let mut d = Vec::new();
        while self.is_p("@") {
            let pos = self.here();
            self.i += 1;
            let name = self.name()?;
            let args = self.args()?;
            d.push(Dir { pos, name, args });
        }
        Ok(d)
    }
    fn ty(&mut self) -> R<Ty> {
        let t = if self.eat_p("[") {
            let t = self.ty()?;
            self.p("]")?;
            Ty::List(Box::new(t))
        } else {
            Ty::Named(self.name()?)
        };
        Ok(if self.eat_p("!") { Ty::NonNull(Box::new(t)) } else { t })
    }

    // ---- queries ----

    fn selset(&mut self) -> R<SelSet> {
        let start = self.here();
        self.p("{")?;
        let mut items = vec![self.selection()?];
        loop {
            let end = self.here();
            if self.eat_p("}") {
                return Ok(SelSet { start, end, items });
            }
            items.push(self.selection()?);
        }
    }
    fn selection(&mut self) -> R<Sel> {
        if self.eat_p("...") {
            let pos = self.here();
            if self.is_name() && !self.is_w("on") {
                let name = self.name()?;
                let dirs = self.dirs()?;
                return Ok(Sel::Spread { pos, name, dirs });
            }
            let on = if self.eat_w("on") { Some(self.name()?) } else { None };
            let dirs = self.dirs()?;
            let sel = self.selset()?;
            return Ok(Sel::Inline { pos, on, dirs, sel });
        }
        let pos = self.here();
        let first = self.name()?;
        let (alias, name) = if self.eat_p(":") { (Some(first), self.name()?) } else { (None, first) };
        let args = self.args()?;
        let dirs = self.dirs()?;
        let sel = if self.is_p("{") { self.selset()? } else { SelSet { start: pos, end: pos, items: vec![] } };
        Ok(Sel::Field(QField { pos, alias, name, args, dirs, sel }))
    }
    fn qdef(&mut self) -> R<QDef> {
        if self.is_p("{") {
            return Ok(QDef::Sel(self.selset()?));
        }
        let pos = self.here();
        if self.eat_w("fragment") {
            let name = self.name()?;
            self.w("on")?;
            let on = self.name()?;
            let dirs = self.dirs()?;
            let sel = self.selset()?;
            return Ok(QDef::Frag(Frag { pos, name, on, dirs, sel }));
        }
        let kind = if self.eat_w("query") {
            OpKind::Query
        } else if self.eat_w("mutation") {
            OpKind::Mutation
        } else if self.eat_w("subscription") {
            OpKind::Subscription
        } else {
            return self.fail();
        };
        let name = if self.is_name() { Some(self.name()?) } else { None };
        let mut vars = Vec::new();
        if self.eat_p("(") {
            loop {
                let pos = self.here();
                self.p("$")?;
                let name = self.name()?;
                self.p(":")?;
                let ty = self.ty()?;
                let default = if self.eat_p("=") { Some(self.value(true)?) } else { None };
                vars.push(VarDef { pos, name, ty, default });
                if self.eat_p(")") {
                    break;
                }
            }
        }
        let dirs = self.dirs()?;
        let sel = self.selset()?;
        Ok(QDef::Op(Op { kind, pos, name, vars, dirs, sel }))
    }
    fn at_end(&self) -> bool {
        self.i == self.lx.toks.len() && self.lx.stop == Stop::Eof
    }

    // ---- schemas ----

    fn schema(&mut self) -> R<SDef> {
        let pos = self.here();
        self.w("schema")?;
        let dirs = self.dirs()?;
        self.p("{")?;
        let mut s = SchemaDef { pos, dirs, query: None, mutation: None, subscription: None };
        let mut bad = false;
        while !self.eat_p("}") {
            let k = self.name()?;
            self.p(":")?;
            let v = self.name()?;
            let slot = match &k[..] {
                "query" => &mut s.query,
                "mutation" => &mut s.mutation,
                "subscription" => &mut s.subscription,
                _ => {
                    bad = true;
                    continue;
                }
            };
            if slot.is_some() {
                bad = true;
            } else {
                *slot = Some(v);
            }
        }
        if bad {
            return Err(Reject { pos, why: Why::Whole });
        }
        Ok(SDef::Schema(s))
    }
    fn ifaces(&mut self) -> R<Vec<String>> {
        let mut v = Vec::new();
        if self.eat_w("implements") {
            self.eat_p("&");
            v.push(self.name()?);
            while self.eat_p("&") {
                v.push(self.name()?);
            }
        }
        Ok(v)
    }
    fn inval(&mut self) -> R<InVal> {
        let pos = self.here();
        let desc = self.desc()?;
        let name = self.name()?;
        self.p(":")?;
        let ty = self.ty()?;
        let default = if self.eat_p("=") { Some(self.value(true)?) } else { None };
        let dirs = self.dirs()?;
        Ok(InVal { pos, desc, name, ty, default, dirs })
    }
    fn invals(&mut self, open: &str, close: &str) -> R<Vec<InVal>> {
        let mut v = Vec::new();
        if self.eat_p(open) {
            loop {
                v.push(self.inval()?);
                if self.eat_p(close) {
                    break;
                }
            }
        }
        Ok(v)
    }
    fn fields(&mut self) -> R<Vec<SField>> {
        let mut v = Vec::new();
        if self.eat_p("{") {
            loop {
                let pos = self.here();
                let desc = self.desc()?;
                let name = self.name()?;
                let args = self.invals("(", ")")?;
                self.p(":")?;
                let ty = self.ty()?;
                let dirs = self.dirs()?;
                v.push(SField { pos, desc, name, args, ty, dirs });
                if self.eat_p("}") {
                    break;
                }
            }
        }
        Ok(v)
    }
    /// The definition proper, from its keyword on, and whether it says anything besides
    /// its name.
    fn typedef(&mut self) -> R<(TypeDef, bool)> {
        let pos = self.here();
        let word = match self.peek() {
            Some(t) if t.kind == K::Name => t.text,
            _ => return self.fail(),
        };
        if !["scalar", "type", "interface", "union", "enum", "input"].contains(&word) {
            return self.fail();
        }
        self.i += 1;
        let name = self.name()?;
        let mut dirs = Vec::new();
        let mut full = false;
        let kind = match word {
            "scalar" => {
                dirs = self.dirs()?;
                TKind::Scalar
            }
            "type" | "interface" => {
                let ifaces = self.ifaces()?;
                dirs = self.dirs()?;
                let fields = self.fields()?;
                full = !ifaces.is_empty() || !fields.is_empty();
                if word == "type" {
                    TKind::Object { ifaces, fields }
                } else {
                    TKind::Interface { ifaces, fields }
                }
            }
            "union" => {
                dirs = self.dirs()?;
                let mut m = Vec::new();
                if self.eat_p("=") {
                    self.eat_p("|");
                    m.push(self.name()?);
                    while self.eat_p("|") {
                        m.push(self.name()?);
                    }
                    full = true;
                }
                TKind::Union(m)
            }
            "enum" => {
                dirs = self.dirs()?;
                let mut vals = Vec::new();
                if self.eat_p("{") {
                    full = true;
                    loop {
                        let pos = self.here();
                        let desc = self.desc()?;
                        let name = self.name()?;
                        let dirs = self.dirs()?;
                        vals.push(EnumVal { pos, desc, name, dirs });
                        if self.eat_p("}") {
                            break;
                        }
                    }
                }
                TKind::Enum(vals)
            }
            _ => {
                dirs.extend(self.dirs()?);
                let f = self.invals("{", "}")?;
                full = !f.is_empty();
                TKind::Input(f)
            }
        };
        let full = full || !dirs.is_empty();
        Ok((TypeDef { pos, desc: None, name, dirs, kind }, full))
    }
    fn sdef(&mut self) -> R<SDef> {
        if self.is_w("schema") {
            return self.schema();
        }
        if self.eat_w("extend") {
            let pos = self.here();
            let (t, full) = self.typedef()?;
            if !full {
                return Err(Reject { pos, why: Why::Whole });
            }
            return Ok(SDef::Ext(t));
        }
        let desc = self.desc()?;
        if self.is_w("directive") {
            let pos = self.here();
            self.i += 1;
            self.p("@")?;
            let name = self.name()?;
            let args = self.invals("(", ")")?;
            let repeatable = self.eat_w("repeatable");
            self.w("on")?;
            self.eat_p("|");
            let mut locs = Vec::new();
            loop {
                let at = self.here();
                let l = self.name()?;
                if !EXEC_LOCS.contains(&&l[..]) && !TYPE_LOCS.contains(&&l[..]) {
                    return Err(Reject { pos: at, why: Why::Literal });
                }
                locs.push(l);
                if !self.eat_p("|") {
                    break;
                }
            }
            return Ok(SDef::Directive(DirDef { pos, desc, name, args, repeatable, locs }));
        }
        let (mut t, _) = self.typedef()?;
        t.desc = desc;
        Ok(SDef::Type(t))
    }
}

pub fn parse_query(text: &str) -> R<QDoc> {
    let mut p = RP::new(text);
    let mut d = vec![p.qdef()?];
    while !p.at_end() {
        d.push(p.qdef()?);
    }
    Ok(QDoc(d))
}

pub fn parse_schema(text: &str) -> R<SDoc> {
    let mut p = RP::new(text);
    let mut d = vec![p.sdef()?];
    while !p.at_end() {
        d.push(p.sdef()?);
    }
    Ok(SDoc(d))
}

/// Objects are returned as the maps they denote.
pub fn parse(lang: Lang, text: &str) -> R<Doc> {
    Ok(match lang {
        Lang::Query => Doc::Q(parse_query(text)?),
        Lang::Schema => Doc::S(parse_schema(text)?),
    }
    .norm())
}

/// First definition of a query text, and the offset of the next significant character.
pub fn consume(text: &str) -> R<(QDef, usize)> {
    // a long text is not read to its end for a short definition
    for most in [100, 2000, usize::MAX] {
        let mut p = RP { lx: lex_some(text, LIMIT, most), i: 0 };
        let whole = p.lx.toks.len() < most;
        let d = p.qdef();
        if whole || d.is_ok() && p.i < p.lx.toks.len() {
            return consumed(p, d?);
        }
    }
    unreachable!()
}
fn consumed(p: RP, d: QDef) -> R<(QDef, usize)> {
    let off = p.peek().map_or(p.lx.stop_off, |t| t.start);
    let mut doc = Doc::Q(QDoc(vec![d])).norm();
    let d = match &mut doc {
        Doc::Q(q) => q.0.remove(0),
        _ => unreachable!(),
    };
    Ok((d, off))
}
