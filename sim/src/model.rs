//! Reference model of JSON minification, and a JSON validity check: deliberately tiny, and
//! independent of the code under test.

/// The text without the whitespace that lies outside string literals. Only meaningful for valid JSON.
pub fn json_min(doc: &str) -> String {
    let mut out = String::with_capacity(doc.len());
    let mut st = Machine::default();
    for c in doc.chars() {
        if st.keep(c) {
            out.push(c);
        }
    }
    out
}

/// The same, one character (or one UTF-8 byte: only ASCII matters) at a time.
#[derive(Default, Clone)]
pub struct Machine {
    in_string: bool,
    escaped: bool,
}
impl Machine {
    pub fn keep(&mut self, c: char) -> bool {
        if self.in_string {
            if self.escaped {
                self.escaped = false;
            } else if c == '\\' {
                self.escaped = true;
            } else if c == '"' {
                self.in_string = false;
            }
            return true;
        }
        if c == '"' {
            self.in_string = true;
        }
        !matches!(c, ' ' | '\t' | '\n' | '\r')
    }
}

/// RFC 8259 validity, without recursion (deep nesting is part of the workload).
pub fn json_valid(doc: &str) -> bool {
    let b = doc.as_bytes();
    let mut i = 0;
    // what we are inside: true = object
    let mut stack: Vec<bool> = Vec::new();
    // 0 value expected, 1 value or ']' expected, 2 key or '}' expected, 3 key expected, 4 after a value
    let mut state = 0;
    loop {
        while i < b.len() && matches!(b[i], b' ' | b'\t' | b'\n' | b'\r') {
            i += 1;
        }
        if i >= b.len() {
            return state == 4 && stack.is_empty();
        }
        match state {
            0 | 1 => match b[i] {
                b']' if state == 1 => {
                    i += 1;
                    stack.pop();
                    state = 4;
                }
                b'{' => {
                    i += 1;
                    stack.push(true);
                    state = 2;
                }
                b'[' => {
                    i += 1;
                    stack.push(false);
                    state = 1;
                }
                _ => {
                    if !scalar(b, &mut i) {
                        return false;
                    }
                    state = 4;
                }
            },
            2 | 3 => {
                if state == 2 && b[i] == b'}' {
                    i += 1;
                    stack.pop();
                    state = 4;
                    continue;
                }
                if b[i] != b'"' || !scalar(b, &mut i) {
                    return false;
                }
                while i < b.len() && matches!(b[i], b' ' | b'\t' | b'\n' | b'\r') {
                    i += 1;
                }
                if i >= b.len() || b[i] != b':' {
                    return false;
                }
                i += 1;
                state = 0;
            }
            _ => match (b[i], stack.last()) {
                (b',', Some(true)) => {
                    i += 1;
                    state = 3;
                }
                (b',', Some(false)) => {
                    i += 1;
                    state = 0;
                }
                (b'}', Some(true)) | (b']', Some(false)) => {
                    i += 1;
                    stack.pop();
                }
                _ => return false,
            },
        }
    }
}

fn scalar(b: &[u8], i: &mut usize) -> bool {
    for l in [&b"true"[..], b"false", b"null"] {
        if b[*i..].starts_with(l) {
            *i += l.len();
            return true;
        }
    }
    if b[*i] == b'"' {
        *i += 1;
        while *i < b.len() {
            match b[*i] {
                b'"' => {
                    *i += 1;
                    return true;
                }
                b'\\' => match b.get(*i + 1) {
                    Some(b'"' | b'\\' | b'/' | b'b' | b'f' | b'n' | b'r' | b't') => *i += 2,
                    Some(b'u') => {
                        if b.len() < *i + 6 || !b[*i + 2..*i + 6].iter().all(u8::is_ascii_hexdigit) {
                            return false;
                        }
                        *i += 6;
                    }
                    _ => return false,
                },
                c if c < 0x20 => return false,
                _ => *i += 1,
            }
        }
        return false;
    }
    let s = *i;
    if b.get(*i) == Some(&b'-') {
        *i += 1;
    }
    let digits = |i: &mut usize| {
        let s = *i;
        while *i < b.len() && b[*i].is_ascii_digit() {
            *i += 1;
        }
        *i > s
    };
    if b.get(*i) == Some(&b'0') {
        *i += 1;
    } else if !digits(i) {
        return false;
    }
    if b.get(*i) == Some(&b'.') {
        *i += 1;
        if !digits(i) {
            return false;
        }
    }
    if matches!(b.get(*i), Some(b'e' | b'E')) {
        *i += 1;
        if matches!(b.get(*i), Some(b'+' | b'-')) {
            *i += 1;
        }
        if !digits(i) {
            return false;
        }
    }
    *i > s
}
