//! A minimal JSON reader and writer
#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

pub fn s(v: impl Into<String>) -> J {
    J::Str(v.into())
}
pub fn n(v: impl TryInto<i64>) -> J {
    J::Num(v.try_into().unwrap_or(0) as f64)
}

impl J {
    pub fn get(&self, k: &str) -> &J {
        static NULL: J = J::Null;
        match self {
            J::Obj(v) => v.iter().find(|(a, _)| a == k).map(|(_, b)| b).unwrap_or(&NULL),
            _ => &NULL,
        }
    }
    pub fn str(&self) -> String {
        match self {
            J::Str(s) => s.clone(),
            _ => String::new(),
        }
    }
    pub fn num(&self) -> f64 {
        match self {
            J::Num(x) => *x,
            _ => 0.0,
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(v) => v,
            _ => &[],
        }
    }
    pub fn obj(&self) -> &[(String, J)] {
        match self {
            J::Obj(v) => v,
            _ => &[],
        }
    }
    pub fn write(&self, out: &mut String) {
        match self {
            J::Null => out.push_str("null"),
            J::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
            J::Num(x) => {
                if x.fract() == 0.0 && x.abs() < 9e15 {
                    out.push_str(&format!("{}", *x as i64))
                } else {
                    out.push_str(&format!("{x}"))
                }
            }
            J::Str(s) => write_str(s, out),
            J::Arr(v) => {
                out.push('[');
                for (i, e) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    e.write(out);
                }
                out.push(']');
            }
            J::Obj(v) => {
                out.push('{');
                for (i, (k, e)) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    write_str(k, out);
                    out.push(':');
                    e.write(out);
                }
                out.push('}');
            }
        }
    }
    pub fn to_text(&self) -> String {
        let mut o = String::new();
        self.write(&mut o);
        o
    }
}

fn write_str(s: &str, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\r' => out.push_str("\\r"),
            '\t' => out.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f || (0x80..0xa0).contains(&(c as u32)) => {
                out.push_str(&format!("\\u{:04x}", c as u32))
            }
            c => out.push(c),
        }
    }
    out.push('"');
}

pub fn parse(text: &str) -> Option<J> {
    let b: Vec<char> = text.chars().collect();
    let mut p = 0;
    let v = value(&b, &mut p)?;
    ws(&b, &mut p);
    if p == b.len() {
        Some(v)
    } else {
        None
    }
}

fn ws(b: &[char], p: &mut usize) {
    while *p < b.len() && b[*p].is_ascii_whitespace() {
        *p += 1;
    }
}

fn value(b: &[char], p: &mut usize) -> Option<J> {
    ws(b, p);
    match b.get(*p)? {
        '{' => {
            *p += 1;
            let mut v = vec![];
            ws(b, p);
            if b.get(*p)? == &'}' {
                *p += 1;
                return Some(J::Obj(v));
            }
            loop {
                ws(b, p);
                let k = string(b, p)?;
                ws(b, p);
                if b.get(*p)? != &':' {
                    return None;
                }
                *p += 1;
                v.push((k, value(b, p)?));
                ws(b, p);
                match b.get(*p)? {
                    ',' => *p += 1,
                    '}' => {
                        *p += 1;
                        return Some(J::Obj(v));
                    }
                    _ => return None,
                }
            }
        }
        '[' => {
            *p += 1;
            let mut v = vec![];
            ws(b, p);
            if b.get(*p)? == &']' {
                *p += 1;
                return Some(J::Arr(v));
            }
            loop {
                v.push(value(b, p)?);
                ws(b, p);
                match b.get(*p)? {
                    ',' => *p += 1,
                    ']' => {
                        *p += 1;
                        return Some(J::Arr(v));
                    }
                    _ => return None,
                }
            }
        }
        '"' => Some(J::Str(string(b, p)?)),
        't' => lit(b, p, "true", J::Bool(true)),
        'f' => lit(b, p, "false", J::Bool(false)),
        'n' => lit(b, p, "null", J::Null),
        _ => {
            let st = *p;
            while *p < b.len() && (b[*p].is_ascii_alphanumeric() || "+-.".contains(b[*p])) {
                *p += 1;
            }
            b[st..*p].iter().collect::<String>().parse().ok().map(J::Num)
        }
    }
}

fn lit(b: &[char], p: &mut usize, w: &str, v: J) -> Option<J> {
    for c in w.chars() {
        if b.get(*p)? != &c {
            return None;
        }
        *p += 1;
    }
    Some(v)
}

fn string(b: &[char], p: &mut usize) -> Option<String> {
    if b.get(*p)? != &'"' {
        return None;
    }
    *p += 1;
    let mut s = String::new();
    loop {
        let c = *b.get(*p)?;
        *p += 1;
        match c {
            '"' => return Some(s),
            '\\' => {
                let e = *b.get(*p)?;
                *p += 1;
                match e {
                    'n' => s.push('\n'),
                    'r' => s.push('\r'),
                    't' => s.push('\t'),
                    'b' => s.push('\u{8}'),
                    'f' => s.push('\u{c}'),
                    'u' => {
                        let h: String = b.get(*p..*p + 4)?.iter().collect();
                        *p += 4;
                        let mut v = u32::from_str_radix(&h, 16).ok()?;
                        if (0xd800..0xdc00).contains(&v) && b.get(*p) == Some(&'\\') {
                            let h: String = b.get(*p + 2..*p + 6)?.iter().collect();
                            *p += 6;
                            let w = u32::from_str_radix(&h, 16).ok()?;
                            v = 0x10000 + ((v - 0xd800) << 10) + (w.wrapping_sub(0xdc00) & 0x3ff);
                        }
                        s.push(char::from_u32(v).unwrap_or('\u{fffd}'));
                    }
                    c => s.push(c),
                }
            }
            c => s.push(c),
        }
    }
}
