//! Generators: from a tape of random numbers to documents, texts, literals and mutations.
//! Everything is a function of the tape, so shrinking the tape shrinks the case: an
//! exhausted tape yields zeros, and zero always stands for the smallest choice.

use crate::dict::dict;
use crate::model::*;

pub struct Tape<'a> {
    d: &'a [u32],
    i: usize,
}

impl<'a> Tape<'a> {
    pub fn new(d: &'a [u32]) -> Tape<'a> {
        Tape { d, i: 0 }
    }
    pub fn raw(&mut self) -> u32 {
        let v = self.d.get(self.i).copied().unwrap_or(0);
        self.i += 1;
        v
    }
    /// 0..n, monotone in the tape's number
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        ((self.raw() as u64 * n as u64) >> 32) as usize
    }
    /// true in `num` of `den` cases; false when the tape is out
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) >= den - num
    }
    pub fn weighted(&mut self, w: &[usize]) -> usize {
        let sum: usize = w.iter().sum();
        let mut r = self.below(sum);
        for (i, x) in w.iter().enumerate() {
            if r < *x {
                return i;
            }
            r -= x;
        }
        unreachable!()
    }
    pub fn pick<'b, T>(&mut self, v: &'b [T]) -> &'b T {
        &v[self.below(v.len())]
    }
    pub fn raw64(&mut self) -> u64 {
        ((self.raw() as u64) << 32) | self.raw() as u64
    }
    /// mostly few, now and then more, at most `max`
    pub fn few(&mut self, max: usize) -> usize {
        const T: [usize; 15] = [0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 4, 5];
        let r = self.below(16);
        let n = if r < 15 { T[r] } else { self.below(max + 1) };
        n.min(max)
    }
}

pub const KEYWORDS: [&str; 38] = [
    "on", "query", "mutation", "subscription", "fragment", "type", "input", "enum", "union", "interface", "scalar",
    "schema", "extend", "directive", "implements", "repeatable", "true", "false", "null", "QUERY", "FIELD", "SCHEMA",
    "OBJECT", "ENUM_VALUE", "INPUT_FIELD_DEFINITION", "VARIABLE_DEFINITION", "INLINE_FRAGMENT", "FRAGMENT_SPREAD",
    "FRAGMENT_DEFINITION", "SCALAR", "ENUM", "UNION", "INTERFACE", "ARGUMENT_DEFINITION", "e", "E", "u", "inf",
];

const COMMON: [&str; 16] = [
    "a", "b", "c", "id", "name", "user", "_", "x1", "__typename", "Int", "String", "Foo", "node", "B", "e5", "_0",
];
/// Names that mean something to some implementation of GraphQL, though not to this parser.
const WELL_KNOWN: [&str; 28] = [
    "Query", "Mutation", "Subscription", "Boolean", "Float", "ID", "include", "skip", "if", "deprecated", "reason",
    "specifiedBy", "url", "oneOf", "defer", "stream", "label", "__schema", "__type", "__Type", "first", "after", "edges",
    "input", "Node", "queryType", "NULL", "True",
];

/// Names that come up often.
pub fn usual_name(s: &str) -> bool {
    KEYWORDS.contains(&s) || COMMON.contains(&s) || WELL_KNOWN.contains(&s)
}

pub struct Gen<'a> {
    pub t: Tape<'a>,
    pub budget: i32,
    /// open brackets around the place being generated
    pub depth: usize,
    /// the last name generated, for neighbours of the same name
    last: String,
}

pub const MAX_DEPTH: usize = 44;

impl<'a> Gen<'a> {
    pub fn new(d: &'a [u32]) -> Gen<'a> {
        let mut t = Tape::new(d);
        let budget = [12, 30, 60, 150, 600][t.weighted(&[3, 5, 5, 3, 1])];
        Gen { t, budget, depth: 0, last: "a".into() }
    }

    fn spend(&mut self) -> bool {
        self.budget -= 1;
        self.budget >= 0
    }

    /// how many, from `min` on
    fn count(&mut self, min: usize) -> usize {
        if self.budget <= 0 {
            return min;
        }
        let r = self.t.below(64);
        let n = match r {
            63 if self.t.chance(1, 4) => dict().size(&mut self.t, 70).unwrap_or(0),
            63 => 8 + self.t.below(40),
            _ => self.t.few(6),
        };
        n.max(min)
    }

    pub fn name(&mut self) -> String {
        let n = match self.t.weighted(&[20, 8, 8, 4, 4, 2, 3]) {
            0 => self.t.pick(&COMMON).to_string(),
            1 => self.t.pick(&KEYWORDS).to_string(),
            2 => self.ident(12),
            3 => self.t.pick(&WELL_KNOWN).to_string(),
            4 => self.last.clone(),
            6 => match dict().word(&mut self.t) {
                Some(w) => w,
                None => "a".into(),
            },
            _ if self.t.chance(1, 4) => {
                let n = dict().size(&mut self.t, 5000).unwrap_or(1).max(1);
                self.ident_n(n)
            }
            _ => {
                let n = [20, 63, 64, 65, 255, 300, 1100][self.t.below(7)];
                self.ident_n(n)
            }
        };
        self.last.clone_from(&n);
        n
    }
    /// Now and then one of several siblings comes twice in a row.
    fn again<T: Clone>(&mut self, v: &mut Vec<T>) {
        if v.len() > 0 && self.budget > 0 && self.t.chance(1, 16) {
            let i = self.t.below(v.len());
            let x = v[i].clone();
            v.insert(i, x);
        }
    }
    fn ident(&mut self, max: usize) -> String {
        let n = 1 + self.t.below(max);
        self.ident_n(n)
    }
    fn ident_n(&mut self, n: usize) -> String {
        const A: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789";
        let mut s = String::new();
        let mut x = 0u64;
        for i in 0..n {
            if i < 24 {
                x = self.t.raw() as u64;
            } else {
                // long names: the rest follows from what came before
                x = (x * 1103515245 + 12345) & 0xffff_ffff;
            }
            let k = ((x * (if i == 0 { 53 } else { 63 })) >> 32) as usize;
            s.push(A[k] as char);
        }
        s
    }
    fn enum_name(&mut self) -> String {
        let n = self.name();
        if ["true", "false", "null"].contains(&&n[..]) {
            format!("{}_", n)
        } else {
            n
        }
    }
    fn frag_name(&mut self) -> String {
        let n = self.name();
        if n == "on" {
            "on_".into()
        } else {
            n
        }
    }

    pub fn chr(&mut self) -> char {
        match self.t.weighted(&[12, 3, 3, 4, 2, 2, 2, 2, 1, 1]) {
            0 => (b'a' + self.t.below(26) as u8) as char,
            1 => ' ',
            2 => '\n',
            3 => *self.t.pick(&['"', '\\', '/', '#', '\'', '{', '}', '$', ',', '\t', 'u', 'n', '0', '.', '-']),
            4 => *self.t.pick(&['\r', '\u{0}', '\u{1}', '\u{8}', '\u{b}', '\u{c}', '\u{10}', '\u{1b}', '\u{1f}', '\u{7f}', '\u{80}', '\u{9f}', '\u{85}']),
            5 => *self.t.pick(&['é', 'ß', 'Ж', '中', '\u{3000}', '\u{a0}', '\u{2028}', '\u{2029}', '\u{feff}', '\u{fffd}', '\u{ffff}', '\u{e000}', '\u{d7ff}', '\u{200b}']),
            6 => *self.t.pick(&['😀', '\u{10000}', '\u{10ffff}', '𝒳', '\u{1f9d1}', '\u{20000}']),
            7 => {
                let x = self.t.below(0x800) as u32;
                char::from_u32(x).unwrap_or('?')
            }
            9 if !dict().chars.is_empty() => *self.t.pick(&dict().chars),
            _ => {
                let x = self.t.below(0x11_0000) as u32;
                char::from_u32(x).unwrap_or('\u{fffe}')
            }
        }
    }
    /// string contents
    pub fn string(&mut self) -> String {
        match self.t.weighted(&[12, 12, 8, 4, 4, 4, 3]) {
            0 => self.t.pick(&["", "a", "hello world", "x y", "\"", "\\", "\"\"\"", "\n", "a\nb", " ", "\u{3000}", "0", "..."]).to_string(),
            1 => {
                let n = self.t.below(14);
                (0..n).map(|_| self.chr()).collect()
            }
            // several lines with indentation
            2 => {
                let n = 1 + self.t.below(5);
                let mut v = Vec::new();
                for _ in 0..n {
                    let ind = *self.t.pick(&["", "", " ", "  ", "    ", "\t", " \t", "\u{a0}", "\u{3000}"]);
                    let body = *self.t.pick(&["x", "", "Some words.", "y z", "\"\"\"", "\"", "\\", "# no comment", "é😀", "{", "end\\", "\"\"", "\r", "trail  ", "\\\"\"\""]);
                    v.push(format!("{}{}", ind, body));
                }
                v.join("\n")
            }
            3 => {
                let n = self.t.below(10);
                let mut s = String::new();
                for _ in 0..n {
                    s.push_str(self.t.pick(&["\"", "\\", "\"\"\"", "\\\"", "\\n", "\\u0041", "\\\\", "/", "\n", " ", "a", "\r\n", "\t", "\u{feff}"]));
                }
                s
            }
            4 => {
                let n = match self.t.below(12) {
                    k if k < 8 => [60, 127, 128, 129, 256, 1000, 1024, 1025][k],
                    8 => dict().size(&mut self.t, 5000).unwrap_or(30),
                    _ => dict().size(&mut self.t, 200).unwrap_or(30),
                };
                let c = self.chr();
                let d = self.chr();
                (0..n).map(|i| if i % 7 == 3 { d } else { c }).collect()
            }
            6 => dict().string(&mut self.t).unwrap_or_default(),
            _ => {
                let c = self.chr();
                c.to_string()
            }
        }
    }
    fn desc(&mut self) -> Option<String> {
        if self.budget > 0 && self.t.chance(1, 3) {
            Some(self.string())
        } else {
            None
        }
    }

    pub fn int(&mut self) -> i64 {
        match self.t.weighted(&[12, 4, 4, 4, 1]) {
            4 if !dict().nums.is_empty() => {
                let n = self.t.pick(&dict().nums).saturating_add(self.t.below(3) as i64 - 1);
                if self.t.chance(1, 3) {
                    -n
                } else {
                    n
                }
            }
            0 => self.t.below(20) as i64,
            1 => -(self.t.below(1000) as i64),
            2 => *self.t.pick(&[
                i64::MAX, i64::MIN, i64::MAX - 1, i64::MIN + 1, i32::MAX as i64, i32::MIN as i64, i32::MAX as i64 + 1,
                i32::MIN as i64 - 1, u32::MAX as i64, 1 << 53, (1 << 53) + 1, 10, 100, 999_999_999_999_999_999,
                -1_000_000_000_000_000_000, -1, 127, 128, 255, 256, 65535,
            ]),
            _ => {
                let s = self.t.below(64);
                (self.t.raw64() as i64) >> s
            }
        }
    }
    pub fn float(&mut self) -> f64 {
        let x = match self.t.weighted(&[10, 6, 6, 4, 4, 1]) {
            5 if !dict().nums.is_empty() => *self.t.pick(&dict().nums) as f64 + (self.t.below(3) as f64 - 1.0) / 2.0,
            0 => (self.t.below(2000) as f64) / [10.0, 4.0, 100.0][self.t.below(3)],
            1 => {
                let e = self.t.below(616) as i32 - 308;
                format!("{}e{}", 1 + self.t.below(9), e).parse().unwrap()
            }
            2 => f64::from_bits(self.t.raw64()),
            3 => *self.t.pick(&[
                0.0, -0.0, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, 1e21, 1e22, 1e15, 1e16, 123456789012345680.0,
                9223372036854775807.0, -9223372036854775808.0, 9223372036854774784.0, 18446744073709551616.0, 0.1, 1e-7,
                2.2250738585072011e-308, 1.7976931348623157e308, 1e300, -1e300, 1e19, -1e19, 3.0, 12300.0,
            ]),
            _ => -(self.t.below(100000) as f64) / 1000.0,
        };
        if x.is_finite() {
            x
        } else {
            f64::from_bits(x.to_bits() & !(0x400 << 52))
        }
    }

    pub fn val(&mut self, constant: bool) -> Val {
        let open = self.spend() && self.depth < MAX_DEPTH;
        let w = [4, 3, 4, 2, 2, 2, if constant { 0 } else { 3 }, if open { 3 } else { 0 }, if open { 3 } else { 0 }];
        match self.t.weighted(&w) {
            0 => Val::Int(self.int()),
            1 => Val::Enum(self.enum_name()),
            2 => Val::Str(self.string()),
            3 => Val::Bool(self.t.chance(1, 2)),
            4 => Val::Null,
            5 => Val::Float(F::new(self.float())),
            6 => Val::Var(self.name()),
            7 => {
                self.depth += 1;
                let n = self.count(0);
                let mut l = (0..n).map(|_| self.val(constant)).collect();
                self.again(&mut l);
                self.depth -= 1;
                Val::List(l)
            }
            _ => {
                self.depth += 1;
                let n = self.count(0);
                let mut o: Vec<(String, Val)> = Vec::new();
                for _ in 0..n {
                    let k = self.name();
                    // a repeated key is rare
                    if o.iter().any(|x| x.0 == k) && !self.t.chance(1, 4) {
                        continue;
                    }
                    let v = self.val(constant);
                    o.push((k, v));
                }
                self.depth -= 1;
                Val::Obj(o)
            }
        }
    }
    fn args(&mut self) -> Args {
        if self.budget <= 0 || self.depth >= MAX_DEPTH || !self.t.chance(2, 5) {
            return vec![];
        }
        self.depth += 1;
        let n = self.count(1);
        let mut a = (0..n).map(|_| (self.name(), self.val(false))).collect();
        self.again(&mut a);
        self.depth -= 1;
        a
    }
    pub fn dirs(&mut self, min: usize) -> Vec<Dir> {
        let n = if self.budget > 0 && self.t.chance(1, 4) { self.count(min) } else { min };
        let mut v = (0..n)
            .map(|_| {
                self.spend();
                if self.t.chance(1, 10) {
                    self.well_known_dir()
                } else {
                    Dir { pos: P(0, 0), name: self.name(), args: self.args() }
                }
            })
            .collect();
        self.again(&mut v);
        v
    }
    /// A directive every GraphQL server has, with the usual arguments or none.
    fn well_known_dir(&mut self) -> Dir {
        let (name, arg, val) = match self.t.below(6) {
            0 => ("include", "if", Val::Bool(true)),
            1 => ("skip", "if", Val::Bool(false)),
            2 => ("deprecated", "reason", Val::Str("No longer supported".into())),
            3 => ("include", "if", Val::Bool(false)),
            4 => ("skip", "if", Val::Bool(true)),
            _ => ("specifiedBy", "url", Val::Str("https://example.com/a#b".into())),
        };
        let args = if self.t.chance(1, 4) || self.depth >= MAX_DEPTH { vec![] } else { vec![(arg.to_string(), val)] };
        Dir { pos: P(0, 0), name: name.into(), args }
    }
    pub fn ty(&mut self) -> Ty {
        let d = if self.t.chance(1, 20) { self.t.below(12) } else { [0, 0, 0, 1, 1, 2, 3][self.t.below(7)] };
        let d = d.min(MAX_DEPTH.saturating_sub(self.depth));
        let mut t = Ty::Named(self.name());
        if self.t.chance(1, 3) {
            t = Ty::NonNull(Box::new(t));
        }
        for _ in 0..d {
            t = Ty::List(Box::new(t));
            if self.t.chance(1, 3) {
                t = Ty::NonNull(Box::new(t));
            }
        }
        t
    }

    // ---- queries ----

    fn empty_sel() -> SelSet {
        SelSet { start: P(0, 0), end: P(0, 0), items: vec![] }
    }
    pub fn selset(&mut self) -> SelSet {
        self.depth += 1;
        let n = self.count(1);
        let mut items = (0..n).map(|_| self.sel()).collect();
        self.again(&mut items);
        self.depth -= 1;
        SelSet { start: P(0, 0), end: P(0, 0), items }
    }
    pub fn sel(&mut self) -> Sel {
        let open = self.spend() && self.depth < MAX_DEPTH;
        match self.t.weighted(&[6, 2, if open { 2 } else { 0 }]) {
            0 => {
                let alias = if self.t.chance(1, 5) { Some(self.name()) } else { None };
                let name = self.name();
                let args = self.args();
                let dirs = self.dirs(0);
                let sel = if open && self.t.chance(2, 5) { self.selset() } else { Self::empty_sel() };
                Sel::Field(QField { pos: P(0, 0), alias, name, args, dirs, sel })
            }
            1 => Sel::Spread { pos: P(0, 0), name: self.frag_name(), dirs: self.dirs(0) },
            _ => {
                let on = if self.t.chance(2, 3) { Some(self.name()) } else { None };
                let dirs = self.dirs(0);
                Sel::Inline { pos: P(0, 0), on, dirs, sel: self.selset() }
            }
        }
    }
    pub fn qdef(&mut self) -> QDef {
        self.spend();
        match self.t.weighted(&[3, 6, 3]) {
            0 => QDef::Sel(self.selset()),
            1 => {
                let kind = [OpKind::Query, OpKind::Mutation, OpKind::Subscription][self.t.below(3)];
                let name = if self.t.chance(2, 3) { Some(self.name()) } else { None };
                let mut vars = Vec::new();
                if self.t.chance(2, 5) {
                    let n = self.count(1);
                    self.depth += 1;
                    for _ in 0..n {
                        self.spend();
                        let name = self.name();
                        let ty = self.ty();
                        let default = if self.t.chance(1, 3) { Some(self.val(true)) } else { None };
                        vars.push(VarDef { pos: P(0, 0), name, ty, default });
                    }
                    self.again(&mut vars);
                    self.depth -= 1;
                }
                let dirs = self.dirs(0);
                QDef::Op(Op { kind, pos: P(0, 0), name, vars, dirs, sel: self.selset() })
            }
            _ => {
                let name = self.frag_name();
                let on = self.name();
                let dirs = self.dirs(0);
                QDef::Frag(Frag { pos: P(0, 0), name, on, dirs, sel: self.selset() })
            }
        }
    }
    pub fn qdoc(&mut self) -> QDoc {
        let n = self.count(1);
        let mut v = (0..n).map(|_| self.qdef()).collect();
        self.again(&mut v);
        QDoc(v)
    }

    // ---- schemas ----

    fn inval(&mut self) -> InVal {
        self.spend();
        let desc = self.desc();
        let name = self.name();
        let ty = self.ty();
        let default = if self.t.chance(1, 3) { Some(self.val(true)) } else { None };
        InVal { pos: P(0, 0), desc, name, ty, default, dirs: self.dirs(0) }
    }
    fn invals(&mut self, min: usize) -> Vec<InVal> {
        self.depth += 1;
        let n = self.count(min);
        let mut v = (0..n).map(|_| self.inval()).collect();
        self.again(&mut v);
        self.depth -= 1;
        v
    }
    fn sfields(&mut self, min: usize) -> Vec<SField> {
        self.depth += 1;
        let n = self.count(min);
        let mut v = (0..n)
            .map(|_| {
                self.spend();
                let desc = self.desc();
                let name = self.name();
                let args = if self.budget > 0 && self.t.chance(1, 3) { self.invals(1) } else { vec![] };
                let ty = self.ty();
                SField { pos: P(0, 0), desc, name, args, ty, dirs: self.dirs(0) }
            })
            .collect();
        self.again(&mut v);
        self.depth -= 1;
        v
    }
    fn enumvals(&mut self, min: usize) -> Vec<EnumVal> {
        let n = self.count(min);
        let mut v = (0..n)
            .map(|_| {
                self.spend();
                let desc = self.desc();
                EnumVal { pos: P(0, 0), desc, name: self.enum_name(), dirs: self.dirs(0) }
            })
            .collect();
        self.again(&mut v);
        v
    }
    fn names(&mut self, min: usize) -> Vec<String> {
        let n = self.count(min);
        let mut v = (0..n).map(|_| self.name()).collect();
        self.again(&mut v);
        v
    }
    fn typedef(&mut self, ext: bool) -> TypeDef {
        self.spend();
        let desc = if ext { None } else { self.desc() };
        let name = self.name();
        let k = self.t.below(6);
        // what an extension has to say at least: 0 = directives, 1 = body, 2 = interfaces
        let need = if ext { [0, 1, 2][self.t.below(if k == 1 || k == 2 { 3 } else if k == 0 { 1 } else { 2 })] } else { 9 };
        let dirs = self.dirs((need == 0) as usize);
        let min = (need == 1) as usize;
        let kind = match k {
            0 => TKind::Scalar,
            1 | 2 => {
                let ifaces = if need == 2 || self.t.chance(1, 3) { self.names((need == 2) as usize) } else { vec![] };
                let fields = self.sfields(min);
                if k == 1 {
                    TKind::Object { ifaces, fields }
                } else {
                    TKind::Interface { ifaces, fields }
                }
            }
            3 => TKind::Union(self.names(min)),
            4 => TKind::Enum(self.enumvals(min)),
            _ => TKind::Input(self.invals(min)),
        };
        TypeDef { pos: P(0, 0), desc, name, dirs, kind }
    }
    pub fn sdef(&mut self) -> SDef {
        match self.t.weighted(&[6, 3, 2, 3]) {
            0 => SDef::Type(self.typedef(false)),
            1 => SDef::Ext(self.typedef(true)),
            2 => {
                let which = 1 + self.t.below(7);
                let usual = self.t.chance(1, 3);
                let mut op = |bit: usize, name: &str| match which & bit {
                    0 => None,
                    _ if usual => Some(name.to_string()),
                    _ => Some(self.name()),
                };
                let query = op(1, "Query");
                let mutation = op(2, "Mutation");
                let subscription = op(4, "Subscription");
                SDef::Schema(SchemaDef { pos: P(0, 0), dirs: self.dirs(0), query, mutation, subscription })
            }
            _ => {
                self.spend();
                let desc = self.desc();
                let name = self.name();
                let args = if self.t.chance(1, 3) { self.invals(1) } else { vec![] };
                let n = self.count(1);
                let mut locs = (0..n)
                    .map(|_| {
                        let k = self.t.below(19);
                        if k < 7 { EXEC_LOCS[k] } else { TYPE_LOCS[k - 7] }.to_string()
                    })
                    .collect();
                self.again(&mut locs);
                SDef::Directive(DirDef { pos: P(0, 0), desc, name, args, repeatable: self.t.chance(1, 3), locs })
            }
        }
    }
    pub fn sdoc(&mut self) -> SDoc {
        let n = self.count(1);
        let mut v = (0..n).map(|_| self.sdef()).collect();
        self.again(&mut v);
        SDoc(v)
    }
    pub fn doc(&mut self, lang: Lang) -> Doc {
        match lang {
            Lang::Query => Doc::Q(self.qdoc()),
            Lang::Schema => Doc::S(self.sdoc()),
        }
    }
    pub fn lang(&mut self) -> Lang {
        if self.t.chance(1, 2) {
            Lang::Schema
        } else {
            Lang::Query
        }
    }
}
