//! Minimal JSON for scenarios, replay files and evidence (independent of the code under test).

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Null,
    B(bool),
    I(i64),
    F(f64),
    S(String),
    A(Vec<V>),
    O(Vec<(String, V)>),
}

impl V {
    pub fn get(&self, k: &str) -> &V {
        if let V::O(o) = self {
            for (n, v) in o {
                if n == k {
                    return v;
                }
            }
        }
        &V::Null
    }
    pub fn set(&mut self, k: &str, v: V) {
        if let V::O(o) = self {
            for e in o.iter_mut() {
                if e.0 == k {
                    e.1 = v;
                    return;
                }
            }
            o.push((k.to_string(), v));
        }
    }
    pub fn arr(&self) -> &[V] {
        match self {
            V::A(a) => a,
            _ => &[],
        }
    }
    pub fn int(&self) -> i64 {
        match self {
            V::I(i) => *i,
            V::B(true) => 1,
            _ => 0,
        }
    }
    pub fn us(&self) -> usize {
        self.int().max(0) as usize
    }
    pub fn str(&self) -> &str {
        match self {
            V::S(s) => s,
            _ => "",
        }
    }
    pub fn bool(&self) -> bool {
        matches!(self, V::B(true)) || matches!(self, V::I(i) if *i != 0)
    }
    pub fn is_null(&self) -> bool {
        *self == V::Null
    }
    pub fn joined(&self) -> String {
        match self {
            V::S(s) => s.clone(),
            V::A(a) => a.iter().map(|x| x.str()).collect(),
            _ => String::new(),
        }
    }
    pub fn ints(&self) -> Vec<usize> {
        self.arr().iter().map(|x| x.us()).collect()
    }
    pub fn dump(&self) -> String {
        let mut s = String::new();
        self.emit(&mut s);
        s
    }
    fn emit(&self, o: &mut String) {
        match self {
            V::Null => o.push_str("null"),
            V::B(b) => o.push_str(if *b { "true" } else { "false" }),
            V::I(i) => o.push_str(&i.to_string()),
            V::F(f) => {
                if f.is_finite() {
                    o.push_str(&format!("{f:.3}"))
                } else {
                    o.push('0')
                }
            }
            V::S(s) => emit_str(s, o),
            V::A(a) => {
                o.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.emit(o);
                }
                o.push(']');
            }
            V::O(m) => {
                o.push('{');
                for (i, (k, x)) in m.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    emit_str(k, o);
                    o.push(':');
                    x.emit(o);
                }
                o.push('}');
            }
        }
    }
    pub fn parse(s: &str) -> Option<V> {
        let c: Vec<char> = s.chars().collect();
        let mut p = 0;
        let v = val(&c, &mut p)?;
        ws(&c, &mut p);
        if p == c.len() {
            Some(v)
        } else {
            None
        }
    }
}

fn emit_str(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 || (0x7f..0xa0).contains(&(c as u32)) || (c as u32) == 0x2028 || (c as u32) == 0x2029 => {
                o.push_str(&format!("\\u{:04x}", c as u32))
            }
            c => o.push(c),
        }
    }
    o.push('"');
}

fn ws(c: &[char], p: &mut usize) {
    while *p < c.len() && matches!(c[*p], ' ' | '\n' | '\t' | '\r') {
        *p += 1;
    }
}

fn hex4(c: &[char], p: &mut usize) -> Option<u32> {
    if *p + 4 > c.len() {
        return None;
    }
    let h: String = c[*p..*p + 4].iter().collect();
    if !h.chars().all(|x| x.is_ascii_hexdigit()) {
        return None;
    }
    *p += 4;
    u32::from_str_radix(&h, 16).ok()
}

fn string(c: &[char], p: &mut usize) -> Option<String> {
    if *p >= c.len() || c[*p] != '"' {
        return None;
    }
    *p += 1;
    let mut s = String::new();
    loop {
        let x = *c.get(*p)?;
        *p += 1;
        match x {
            '"' => return Some(s),
            '\\' => {
                let e = *c.get(*p)?;
                *p += 1;
                match e {
                    '"' | '\\' | '/' => s.push(e),
                    'b' => s.push('\u{8}'),
                    'f' => s.push('\u{c}'),
                    'n' => s.push('\n'),
                    'r' => s.push('\r'),
                    't' => s.push('\t'),
                    'u' => {
                        let h = hex4(c, p)?;
                        if (0xD800..0xDC00).contains(&h)
                            && c.get(*p) == Some(&'\\')
                            && c.get(*p + 1) == Some(&'u')
                        {
                            let mut q = *p + 2;
                            let l = hex4(c, &mut q)?;
                            if (0xDC00..0xE000).contains(&l) {
                                *p = q;
                                s.push(char::from_u32(
                                    0x10000 + ((h - 0xD800) << 10) + (l - 0xDC00),
                                )?);
                                continue;
                            }
                        }
                        s.push(char::from_u32(h).unwrap_or('\u{FFFD}'));
                    }
                    _ => return None,
                }
            }
            x if (x as u32) < 0x20 => return None,
            x => s.push(x),
        }
    }
}

fn val(c: &[char], p: &mut usize) -> Option<V> {
    ws(c, p);
    match *c.get(*p)? {
        '{' => {
            *p += 1;
            let mut o = vec![];
            ws(c, p);
            if c.get(*p) == Some(&'}') {
                *p += 1;
                return Some(V::O(o));
            }
            loop {
                ws(c, p);
                let k = string(c, p)?;
                ws(c, p);
                if c.get(*p) != Some(&':') {
                    return None;
                }
                *p += 1;
                let v = val(c, p)?;
                o.push((k, v));
                ws(c, p);
                match c.get(*p)? {
                    ',' => *p += 1,
                    '}' => {
                        *p += 1;
                        return Some(V::O(o));
                    }
                    _ => return None,
                }
            }
        }
        '[' => {
            *p += 1;
            let mut a = vec![];
            ws(c, p);
            if c.get(*p) == Some(&']') {
                *p += 1;
                return Some(V::A(a));
            }
            loop {
                a.push(val(c, p)?);
                ws(c, p);
                match c.get(*p)? {
                    ',' => *p += 1,
                    ']' => {
                        *p += 1;
                        return Some(V::A(a));
                    }
                    _ => return None,
                }
            }
        }
        '"' => Some(V::S(string(c, p)?)),
        't' => lit(c, p, "true", V::B(true)),
        'f' => lit(c, p, "false", V::B(false)),
        'n' => lit(c, p, "null", V::Null),
        _ => {
            let s = *p;
            while *p < c.len() && matches!(c[*p], '0'..='9' | '-' | '+' | '.' | 'e' | 'E') {
                *p += 1;
            }
            let t: String = c[s..*p].iter().collect();
            if !number_ok(&t) {
                return None;
            }
            if let Ok(i) = t.parse::<i64>() {
                Some(V::I(i))
            } else {
                t.parse::<f64>().ok().map(V::F)
            }
        }
    }
}

fn number_ok(t: &str) -> bool {
    let b = t.as_bytes();
    let mut i = 0;
    let digits = |i: &mut usize| {
        let s = *i;
        while *i < b.len() && b[*i].is_ascii_digit() {
            *i += 1;
        }
        *i - s
    };
    if b.get(i) == Some(&b'-') {
        i += 1;
    }
    if b.get(i) == Some(&b'0') {
        i += 1;
    } else if digits(&mut i) == 0 {
        return false;
    }
    if b.get(i) == Some(&b'.') {
        i += 1;
        if digits(&mut i) == 0 {
            return false;
        }
    }
    if matches!(b.get(i), Some(b'e' | b'E')) {
        i += 1;
        if matches!(b.get(i), Some(b'+' | b'-')) {
            i += 1;
        }
        if digits(&mut i) == 0 {
            return false;
        }
    }
    i == b.len()
}

fn lit(c: &[char], p: &mut usize, t: &str, v: V) -> Option<V> {
    for x in t.chars() {
        if c.get(*p) != Some(&x) {
            return None;
        }
        *p += 1;
    }
    Some(v)
}

pub fn obj(v: Vec<(&str, V)>) -> V {
    V::O(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}
pub fn s(x: &str) -> V {
    V::S(x.to_string())
}
pub fn i(x: usize) -> V {
    V::I(x as i64)
}
pub fn ints(x: &[usize]) -> V {
    V::A(x.iter().map(|y| i(*y)).collect())
}
pub fn strs(x: &[String]) -> V {
    V::A(x.iter().map(|y| V::S(y.clone())).collect())
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    let b: Vec<u8> = s.bytes().filter(|x| x.is_ascii_hexdigit()).collect();
    b.chunks_exact(2)
        .map(|x| u8::from_str_radix(std::str::from_utf8(x).unwrap(), 16).unwrap())
        .collect()
}
