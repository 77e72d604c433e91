//! C14: the limit on nesting.

use super::*;
use graphql_parser::minify_query;
use graphql_parser::query::consume_definition;

/// A document with brackets up to `depth` deep, and crowds of others beside.
struct Nest<'g, 'a> {
    g: &'g mut Gen<'a>,
    s: String,
    open: usize,
    depth: usize,
}
impl<'g, 'a> Nest<'g, 'a> {
    fn o(&mut self, s: &str) {
        self.s.push_str(s);
        self.open += 1;
    }
    fn c(&mut self, s: &str) {
        self.s.push_str(s);
        self.open -= 1;
    }
    fn left(&self) -> usize {
        self.depth - self.open
    }
    /// neighbours that open and close again at the same level
    fn crowd(&mut self, item: &str, need: usize) {
        if self.left() >= need && self.g.t.chance(1, 8) {
            let n = [1, 3, 30, 60, 120][self.g.t.below(5)];
            for _ in 0..n {
                self.s.push_str(item);
            }
        }
    }
    fn val(&mut self) {
        if self.left() == 0 {
            self.s.push_str(["1", "A", "\"}\"", "null"][self.g.t.below(4)]);
            return;
        }
        if self.g.t.chance(1, 2) {
            self.o("[");
            self.crowd("[] ", 1);
            self.crowd("{} ", 1);
            self.val();
            self.crowd(" [1 []]", 2);
            self.c("]");
        } else {
            self.o("{");
            self.crowd("b:[] ", 1);
            self.s.push_str("a:");
            self.val();
            self.crowd(" c:{d:[]}", 2);
            self.c("}");
        }
    }
    fn ty(&mut self) {
        let n = self.left();
        for _ in 0..n {
            self.o("[");
        }
        self.s.push('T');
        for _ in 0..n {
            self.c("]");
            if self.g.t.chance(1, 4) {
                self.s.push('!');
            }
        }
    }
    fn args(&mut self) {
        self.o("(");
        self.s.push_str("x:");
        self.val();
        self.c(")");
    }
    fn sel(&mut self) {
        self.o("{");
        self.crowd("f(a:1) ", 1);
        self.crowd("g{h} ", 1);
        let k = if self.left() == 0 { 9 } else { self.g.t.weighted(&[10, 4, 1, 1, 1]) };
        match k {
            0 => {
                self.s.push('a');
                self.sel();
            }
            1 => {
                self.s.push_str(["...", "... on T", "...@d(a:[])", "... on T@d"][if self.left() > 1 { self.g.t.below(4) } else { 0 }]);
                self.sel();
            }
            2 => {
                self.s.push('a');
                self.args();
            }
            3 => {
                self.s.push_str("a@d");
                self.args();
            }
            4 => {
                self.s.push_str("a(x:1)@d");
                self.sel();
            }
            _ => self.s.push('z'),
        }
        self.crowd(" k(a:[])", 2);
        self.c("}");
    }
    fn query(&mut self) {
        match self.g.t.weighted(&[6, 2, 2, 2, 2]) {
            0 => {
                let w = *self.g.t.pick(&["", "query", "mutation M", "subscription", "fragment F on T", "query Q@d"]);
                self.s.push_str(w);
                if self.left() > 0 {
                    self.sel();
                } else {
                    self.s.push_str("{a}");
                }
            }
            1 => {
                self.s.push_str("query");
                self.o("(");
                self.s.push_str("$v:T=");
                self.val();
                self.c(")");
                self.s.push_str("{a}");
            }
            2 => {
                self.s.push_str("query");
                self.o("(");
                self.s.push_str("$v:");
                self.ty();
                self.c(")");
                self.s.push_str("{a}");
            }
            3 => {
                self.s.push_str("fragment F on T@d");
                self.args();
                self.s.push_str("{a}");
            }
            _ => {
                self.s.push('{');
                self.open += 1;
                self.s.push('a');
                if self.left() > 0 {
                    self.args();
                }
                self.c("}");
            }
        }
    }
    fn schema(&mut self) {
        match self.g.t.below(6) {
            0 => {
                self.o("type A{");
                self.crowd("f:[T] ", 1);
                self.s.push_str("a:");
                self.ty();
                self.c("}");
            }
            1 => {
                self.o("input I{");
                self.s.push_str("a:T=");
                self.val();
                self.c("}");
            }
            2 => {
                self.s.push_str("scalar S@d");
                self.args();
            }
            3 => {
                self.o("interface A{");
                self.s.push('a');
                if self.left() >= 1 {
                    self.o("(");
                    self.crowd("c:[T] ", 1);
                    self.s.push_str("b:T=");
                    self.val();
                    self.c(")");
                }
                self.s.push_str(":T");
                self.c("}");
            }
            4 => {
                self.o("extend enum E{");
                self.s.push('A');
                if self.left() >= 1 {
                    self.s.push_str("@d");
                    self.args();
                }
                self.c("}");
            }
            _ => {
                self.s.push_str("directive@d");
                self.o("(");
                self.s.push_str("a:");
                self.ty();
                self.c(")");
                self.s.push_str("on FIELD");
            }
        }
    }
}

fn c14_gen(g: &mut Gen, l: &mut Tape) -> Case {
    let lang = g.lang();
    let depth = match l.weighted(&[4, 4, 4, 2, 1]) {
        0 => 50,
        1 => 51,
        2 => 48 + l.below(6),
        3 => 1 + l.below(47),
        _ => [64, 100, 257, 1000, 5000][l.below(5)],
    };
    let n = 1 + l.below(3);
    let deep = l.below(n);
    let mut text = String::new();
    for i in 0..n {
        // something long beside it
        if l.chance(1, 4) {
            if l.chance(1, 30) {
                text.push_str(&work::big(lang, g, l));
            } else {
                text.push_str(&work::crowd_of(lang, l));
            }
            text.push('\n');
        }
        let depth = if i == deep { depth } else { 1 + l.below(50) };
        let mut x = Nest { g, s: String::new(), open: 0, depth };
        if lang == Lang::Query {
            x.query()
        } else {
            x.schema()
        }
        text.push_str(&x.s);
        text.push(' ');
    }
    Case::new().with("lang", lang.name()).with("text", text)
}

fn says_limit(e: &str) -> bool {
    e.to_lowercase().contains("recursion limit")
}

fn c14_calls(lang: Lang, text: &str, max: usize) -> Verdict {
    let expect = |what: &str, r: Result<(), String>| -> Verdict {
        match r {
            Ok(()) if max <= LIMIT => Ok(()),
            Ok(()) => Err(format!("{} takes {} open brackets", what, max)),
            Err(e) if max <= LIMIT => Err(format!("{} refuses {} open brackets: {}", what, max, e)),
            Err(e) if says_limit(&e) => Ok(()),
            Err(e) => Err(format!("{} refuses {} open brackets without saying why: {}", what, max, e)),
        }
    };
    expect(lang.name(), parse_ref(lang, text).map(|_| ()))?;
    expect(lang.name(), parse::<String>(lang, text).map(|_| ()))?;
    expect("minify", minify_query(text.to_string()).map(|_| ()).map_err(|e| e.to_string()))?;
    if lang == Lang::Query {
        let mut rest = text;
        let mut r = Ok(());
        while !rest.is_empty() && r.is_ok() {
            match consume_definition::<&str>(rest) {
                Ok((_, x)) => rest = x,
                Err(e) => r = Err(e.to_string()),
            }
        }
        expect("consume", r)?;
    }
    if let Ok(d) = parse_ref(lang, text) {
        // what can be parsed can also be used
        let d2 = d.clone();
        let f = d.format(crate::refprint::Sty { indent: 1, multi: true });
        if d2 != d || f.is_empty() || d.display().is_empty() || format!("{:?}", d).is_empty() {
            return Err("a deep document is not usable".into());
        }
    }
    Ok(())
}

fn c14_check(c: &Case, o: &mut Obs) -> Verdict {
    let lang = lang_of(c);
    let text = c.get("text");
    let lx = lex_limit(text, usize::MAX >> 1);
    if lx.stop != Stop::Eof {
        return Ok(());
    }
    let max = lx.max_depth;
    let want = refparse::parse(lang, text);
    match &want {
        Ok(_) => {}
        Err(r) if r.why == refparse::Why::TooDeep => {}
        Err(_) => {
            o.class("no document");
            return Ok(());
        }
    }
    // what stands after the limit was passed has to be a document's too
    if max > LIMIT && !balanced(text) {
        return Ok(());
    }
    let (t, r) = (text.to_string(), std::sync::Arc::new(std::sync::Mutex::new(Ok(()))));
    let r2 = r.clone();
    // the calls alone, on a stack as threads have it
    std::thread::Builder::new()
        .stack_size(SMALL_STACK)
        .spawn(move || *r2.lock().unwrap() = guarded(|| c14_calls(lang, &t, max)))
        .unwrap()
        .join()
        .map_err(|_| "thread died")?;
    let v = r.lock().unwrap().clone();
    v?;
    if let Ok(want) = want {
        same_tree(lang, text, &want, true)?;
    }
    o.class(match max {
        0..=47 => "depth<=47",
        48 | 49 => "depth 48, 49",
        50 => "depth 50",
        51 => "depth 51",
        52..=60 => "depth 52-60",
        _ => "depth>60",
    });
    o.class_if(lx.toks.iter().filter(|t| matches!(t.text, "(" | "[" | "{")).count() > 60, "more than 60 brackets");
    o.nontrivial = max >= 45;
    Ok(())
}
fn balanced(text: &str) -> bool {
    let mut st = Vec::new();
    for t in lex_limit(text, usize::MAX >> 1).toks {
        match t.text {
            "(" | "[" | "{" => st.push(t.text),
            ")" | "]" | "}" => {
                let o = match t.text {
                    ")" => "(",
                    "]" => "[",
                    _ => "{",
                };
                if st.pop() != Some(o) {
                    return false;
                }
            }
            _ => {}
        }
    }
    st.is_empty()
}

pub static C14: Prop = Prop {
    id: "C14",
    rule: "Documents of both languages built to a chosen depth (around fifty, and up to thousands) from any mixture of selection sets, arguments, lists, objects, list types and directives, with crowds of brackets and of every other construct beside; every entry point is called on a 2 MiB stack in an unoptimised build. Non-trivial: at least 45 deep.",
    gen: c14_gen,
    check: c14_check,
    fixed: none,
    quick: 8_000,
    thorough: 400_000,
    tapes: (400, 40),
    stack: STACK,
    cut: &["text"],
};
