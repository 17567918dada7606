//! A small JSON value: enough to write schemas and evidence and to read the findings file.
#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}
pub fn s(x: impl Into<String>) -> J {
    J::Str(x.into())
}
pub fn n(x: usize) -> J {
    J::Num(x as f64)
}
pub fn obj(v: Vec<(&str, J)>) -> J {
    J::Obj(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}
impl J {
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(v) => v.iter().find(|(a, _)| a == k).map(|(_, b)| b),
            _ => None,
        }
    }
    pub fn str(&self) -> Option<&str> {
        match self {
            J::Str(x) => Some(x),
            _ => None,
        }
    }
    pub fn dump(&self) -> String {
        let mut o = String::new();
        self.w(&mut o);
        o
    }
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Num(x) => {
                if x.fract() == 0.0 && x.abs() < 1e15 {
                    o.push_str(&format!("{}", *x as i64))
                } else {
                    o.push_str(&format!("{x}"))
                }
            }
            J::Str(x) => quote(x, o),
            J::Arr(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::Obj(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    quote(k, o);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}
fn quote(x: &str, o: &mut String) {
    o.push('"');
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
}
pub fn parse(t: &str) -> Option<J> {
    let b = t.as_bytes();
    let mut i = 0;
    let v = val(b, &mut i)?;
    ws(b, &mut i);
    (i == b.len()).then_some(v)
}
fn ws(b: &[u8], i: &mut usize) {
    while *i < b.len() && matches!(b[*i], b' ' | b'\n' | b'\t' | b'\r') {
        *i += 1;
    }
}
fn val(b: &[u8], i: &mut usize) -> Option<J> {
    ws(b, i);
    match *b.get(*i)? {
        b'{' => {
            *i += 1;
            let mut v = vec![];
            loop {
                ws(b, i);
                if *b.get(*i)? == b'}' {
                    *i += 1;
                    return Some(J::Obj(v));
                }
                if !v.is_empty() {
                    if *b.get(*i)? != b',' {
                        return None;
                    }
                    *i += 1;
                    ws(b, i);
                }
                let k = st(b, i)?;
                ws(b, i);
                if *b.get(*i)? != b':' {
                    return None;
                }
                *i += 1;
                v.push((k, val(b, i)?));
            }
        }
        b'[' => {
            *i += 1;
            let mut v = vec![];
            loop {
                ws(b, i);
                if *b.get(*i)? == b']' {
                    *i += 1;
                    return Some(J::Arr(v));
                }
                if !v.is_empty() {
                    if *b.get(*i)? != b',' {
                        return None;
                    }
                    *i += 1;
                }
                v.push(val(b, i)?);
            }
        }
        b'"' => Some(J::Str(st(b, i)?)),
        b't' => lit(b, i, "true", J::Bool(true)),
        b'f' => lit(b, i, "false", J::Bool(false)),
        b'n' => lit(b, i, "null", J::Null),
        _ => {
            let s0 = *i;
            while *i < b.len() && matches!(b[*i], b'0'..=b'9' | b'-' | b'+' | b'.' | b'e' | b'E') {
                *i += 1;
            }
            std::str::from_utf8(&b[s0..*i]).ok()?.parse().ok().map(J::Num)
        }
    }
}
fn lit(b: &[u8], i: &mut usize, w: &str, v: J) -> Option<J> {
    if b[*i..].starts_with(w.as_bytes()) {
        *i += w.len();
        Some(v)
    } else {
        None
    }
}
fn st(b: &[u8], i: &mut usize) -> Option<String> {
    if *b.get(*i)? != b'"' {
        return None;
    }
    *i += 1;
    let mut o = vec![];
    loop {
        match *b.get(*i)? {
            b'"' => {
                *i += 1;
                return String::from_utf8(o).ok();
            }
            b'\\' => {
                *i += 1;
                let c = match *b.get(*i)? {
                    b'n' => '\n',
                    b't' => '\t',
                    b'r' => '\r',
                    b'u' => {
                        let h = std::str::from_utf8(b.get(*i + 1..*i + 5)?).ok()?;
                        *i += 4;
                        char::from_u32(u32::from_str_radix(h, 16).ok()?)?
                    }
                    x => x as char,
                };
                let mut t = [0; 4];
                o.extend_from_slice(c.encode_utf8(&mut t).as_bytes());
                *i += 1;
            }
            x => {
                o.push(x);
                *i += 1;
            }
        }
    }
}
