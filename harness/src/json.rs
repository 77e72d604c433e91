//! Just enough JSON: objects of strings, and writing.

pub fn quote(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn object(kv: &[(&'static str, String)]) -> String {
    let mut o = String::from("{\n");
    for (i, (k, v)) in kv.iter().enumerate() {
        o.push_str(&format!(" {}: {}{}\n", quote(k), quote(v), if i + 1 < kv.len() { "," } else { "" }));
    }
    o.push('}');
    o
}

/// Reads one flat object whose values are strings.
pub fn parse(s: &str) -> Result<Vec<(String, String)>, String> {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let ws = |i: &mut usize| {
        while *i < c.len() && c[*i].is_whitespace() {
            *i += 1
        }
    };
    let string = |i: &mut usize| -> Result<String, String> {
        if c.get(*i) != Some(&'"') {
            return Err(format!("string expected at {}", i));
        }
        *i += 1;
        let mut o = String::new();
        let mut hi: Option<u32> = None;
        loop {
            let x = *c.get(*i).ok_or("unterminated")?;
            *i += 1;
            match x {
                '"' => return Ok(o),
                '\\' => {
                    let e = *c.get(*i).ok_or("unterminated")?;
                    *i += 1;
                    match e {
                        'n' => o.push('\n'),
                        't' => o.push('\t'),
                        'r' => o.push('\r'),
                        'b' => o.push('\u{8}'),
                        'f' => o.push('\u{c}'),
                        'u' => {
                            let h: String = c.get(*i..*i + 4).ok_or("short")?.iter().collect();
                            *i += 4;
                            let v = u32::from_str_radix(&h, 16).map_err(|e| e.to_string())?;
                            match hi.take() {
                                Some(h) => o.push(char::from_u32(0x10000 + ((h - 0xd800) << 10) + (v - 0xdc00)).ok_or("surrogate")?),
                                None if (0xd800..0xdc00).contains(&v) => hi = Some(v),
                                None => o.push(char::from_u32(v).ok_or("surrogate")?),
                            }
                        }
                        e => o.push(e),
                    }
                }
                x => o.push(x),
            }
        }
    };
    let mut out = Vec::new();
    ws(&mut i);
    if c.get(i) != Some(&'{') {
        return Err("object expected".into());
    }
    i += 1;
    loop {
        ws(&mut i);
        match c.get(i) {
            Some('}') => return Ok(out),
            Some(',') => i += 1,
            Some('"') => {
                let k = string(&mut i)?;
                ws(&mut i);
                if c.get(i) != Some(&':') {
                    return Err("colon expected".into());
                }
                i += 1;
                ws(&mut i);
                let v = string(&mut i)?;
                out.push((k, v));
            }
            x => return Err(format!("unexpected {:?}", x)),
        }
    }
}
