//! Just enough JSON for evidence, replay and known-findings files.
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(f64),
    Int(u64),
    Str(String),
    Arr(Vec<J>),
    Obj(BTreeMap<String, J>),
}

pub fn s<T: Into<String>>(v: T) -> J {
    J::Str(v.into())
}

pub fn obj(items: Vec<(&str, J)>) -> J {
    J::Obj(items.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}

impl J {
    pub fn get(&self, k: &str) -> Option<&J> {
        if let J::Obj(ref o) = *self { o.get(k) } else { None }
    }

    pub fn str(&self) -> Option<&str> {
        if let J::Str(ref v) = *self { Some(v) } else { None }
    }

    pub fn arr(&self) -> &[J] {
        if let J::Arr(ref v) = *self { v } else { &[] }
    }

    pub fn int(&self) -> Option<u64> {
        match *self {
            J::Int(v) => Some(v),
            J::Num(v) => Some(v as u64),
            _ => None,
        }
    }

    pub fn write(&self, out: &mut String, ind: usize) {
        match *self {
            J::Null => out.push_str("null"),
            J::Bool(b) => out.push_str(if b { "true" } else { "false" }),
            J::Num(n) => out.push_str(&format!("{:.3}", n)),
            J::Int(n) => out.push_str(&n.to_string()),
            J::Str(ref v) => quote(v, out),
            J::Arr(ref v) => {
                let flat = v.iter().all(|x| matches!(*x, J::Int(_) | J::Num(_)));
                out.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    if !flat {
                        out.push('\n');
                        out.push_str(&" ".repeat(ind + 1));
                    }
                    x.write(out, ind + 1);
                }
                out.push(']');
            }
            J::Obj(ref v) => {
                out.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    out.push('\n');
                    out.push_str(&" ".repeat(ind + 1));
                    quote(k, out);
                    out.push_str(": ");
                    x.write(out, ind + 1);
                }
                out.push('\n');
                out.push_str(&" ".repeat(ind));
                out.push('}');
            }
        }
    }

    pub fn text(&self) -> String {
        let mut o = String::new();
        self.write(&mut o, 0);
        o.push('\n');
        o
    }

    pub fn parse(text: &str) -> Option<J> {
        let b = text.as_bytes();
        let mut p = 0;
        let v = value(b, &mut p)?;
        ws(b, &mut p);
        if p == b.len() { Some(v) } else { None }
    }
}

fn quote(v: &str, out: &mut String) {
    out.push('"');
    for c in v.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => out.push_str(&format!("\\u{:04x}", c as u32)),
            c => out.push(c),
        }
    }
    out.push('"');
}

fn ws(b: &[u8], p: &mut usize) {
    while *p < b.len() && (b[*p] == b' ' || b[*p] == b'\n' || b[*p] == b'\t' || b[*p] == b'\r') {
        *p += 1;
    }
}

fn value(b: &[u8], p: &mut usize) -> Option<J> {
    ws(b, p);
    match *b.get(*p)? {
        b'{' => {
            *p += 1;
            let mut m = BTreeMap::new();
            loop {
                ws(b, p);
                match *b.get(*p)? {
                    b'}' => { *p += 1; return Some(J::Obj(m)); }
                    b',' => { *p += 1; }
                    _ => {
                        let k = match value(b, p)? { J::Str(k) => k, _ => return None };
                        ws(b, p);
                        if *b.get(*p)? != b':' { return None; }
                        *p += 1;
                        m.insert(k, value(b, p)?);
                    }
                }
            }
        }
        b'[' => {
            *p += 1;
            let mut v = vec![];
            loop {
                ws(b, p);
                match *b.get(*p)? {
                    b']' => { *p += 1; return Some(J::Arr(v)); }
                    b',' => { *p += 1; }
                    _ => v.push(value(b, p)?),
                }
            }
        }
        b'"' => {
            *p += 1;
            let mut out = vec![];
            loop {
                let c = *b.get(*p)?;
                *p += 1;
                match c {
                    b'"' => return String::from_utf8(out).ok().map(J::Str),
                    b'\\' => {
                        let e = *b.get(*p)?;
                        *p += 1;
                        match e {
                            b'n' => out.push(b'\n'),
                            b't' => out.push(b'\t'),
                            b'r' => out.push(b'\r'),
                            b'u' => {
                                let h = std::str::from_utf8(b.get(*p..*p + 4)?).ok()?;
                                *p += 4;
                                let c = char::from_u32(u32::from_str_radix(h, 16).ok()?)?;
                                let mut buf = [0; 4];
                                out.extend_from_slice(c.encode_utf8(&mut buf).as_bytes());
                            }
                            e => out.push(e),
                        }
                    }
                    c => out.push(c),
                }
            }
        }
        b't' => { *p += 4; Some(J::Bool(true)) }
        b'f' => { *p += 5; Some(J::Bool(false)) }
        b'n' => { *p += 4; Some(J::Null) }
        _ => {
            let start = *p;
            while *p < b.len() && (b[*p] == b'-' || b[*p] == b'+' || b[*p] == b'.' || b[*p] == b'e' || b[*p] == b'E' || (b[*p] as char).is_ascii_digit()) {
                *p += 1;
            }
            let t = std::str::from_utf8(&b[start..*p]).ok()?;
            if let Ok(n) = t.parse::<u64>() { return Some(J::Int(n)); }
            t.parse::<f64>().ok().map(J::Num)
        }
    }
}
