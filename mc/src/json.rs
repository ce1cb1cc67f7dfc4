//! A small strict JSON implementation of our own (values, parser, printer), independent of the one
//! Stuart uses.

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Null,
    Bool(bool),
    Num(f64),
    Str(String),
    Arr(Vec<V>),
    Obj(Vec<(String, V)>),
}

impl V {
    pub fn s(x: &str) -> V {
        V::Str(x.to_string())
    }
    pub fn get(&self, k: &str) -> Option<&V> {
        match self {
            V::Obj(o) => o.iter().find(|(n, _)| n == k).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn str(&self) -> Option<&str> {
        match self {
            V::Str(s) => Some(s),
            _ => None,
        }
    }
    pub fn arr(&self) -> Option<&[V]> {
        match self {
            V::Arr(a) => Some(a),
            _ => None,
        }
    }
    /// Structural equality in which the order of object keys does not matter.
    pub fn same(&self, o: &V) -> bool {
        match (self, o) {
            (V::Obj(a), V::Obj(b)) => {
                a.len() == b.len()
                    && a.iter().all(|(k, v)| {
                        b.iter().filter(|(k2, _)| k2 == k).count() == 1
                            && b.iter().any(|(k2, v2)| k2 == k && v.same(v2))
                    })
            }
            (V::Arr(a), V::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.same(y)),
            _ => self == o,
        }
    }
    pub fn print(&self) -> String {
        let mut out = String::new();
        self.pr(&mut out);
        out
    }
    fn pr(&self, o: &mut String) {
        match self {
            V::Null => o.push_str("null"),
            V::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            V::Num(n) => o.push_str(&format!("{}", n)),
            V::Str(s) => esc(s, o),
            V::Arr(a) => {
                o.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.pr(o);
                }
                o.push(']');
            }
            V::Obj(a) => {
                o.push('{');
                for (i, (k, x)) in a.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(k, o);
                    o.push(':');
                    x.pr(o);
                }
                o.push('}');
            }
        }
    }
}

pub fn esc(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            '\u{8}' => o.push_str("\\b"),
            '\u{c}' => o.push_str("\\f"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
}

pub fn parse(s: &str) -> Result<V, String> {
    parse_within(s, 250)
}

/// Parses JSON with at most `depth` levels.
pub fn parse_within(s: &str, depth: usize) -> Result<V, String> {
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    let v = val(&b, &mut i, depth)?;
    ws(&b, &mut i);
    if i != b.len() {
        return Err(format!("trailing characters at {}", i));
    }
    Ok(v)
}

fn ws(b: &[char], i: &mut usize) {
    while *i < b.len() && matches!(b[*i], ' ' | '\t' | '\n' | '\r') {
        *i += 1;
    }
}

fn val(b: &[char], i: &mut usize, d: usize) -> Result<V, String> {
    if d == 0 {
        return Err("depth".into());
    }
    ws(b, i);
    let e = |i: usize| Err(format!("unexpected at {}", i));
    if *i >= b.len() {
        return e(*i);
    }
    match b[*i] {
        '"' => Ok(V::Str(string(b, i)?)),
        '[' => {
            *i += 1;
            let mut a = vec![];
            ws(b, i);
            if *i < b.len() && b[*i] == ']' {
                *i += 1;
                return Ok(V::Arr(a));
            }
            loop {
                a.push(val(b, i, d - 1)?);
                ws(b, i);
                match b.get(*i) {
                    Some(',') => *i += 1,
                    Some(']') => {
                        *i += 1;
                        return Ok(V::Arr(a));
                    }
                    _ => return e(*i),
                }
            }
        }
        '{' => {
            *i += 1;
            let mut a = vec![];
            ws(b, i);
            if *i < b.len() && b[*i] == '}' {
                *i += 1;
                return Ok(V::Obj(a));
            }
            loop {
                ws(b, i);
                if b.get(*i) != Some(&'"') {
                    return e(*i);
                }
                let k = string(b, i)?;
                ws(b, i);
                if b.get(*i) != Some(&':') {
                    return e(*i);
                }
                *i += 1;
                a.push((k, val(b, i, d - 1)?));
                ws(b, i);
                match b.get(*i) {
                    Some(',') => *i += 1,
                    Some('}') => {
                        *i += 1;
                        return Ok(V::Obj(a));
                    }
                    _ => return e(*i),
                }
            }
        }
        't' | 'f' | 'n' => {
            for (w, v) in [("true", V::Bool(true)), ("false", V::Bool(false)), ("null", V::Null)] {
                let w: Vec<char> = w.chars().collect();
                if b[*i..].starts_with(&w) {
                    *i += w.len();
                    return Ok(v);
                }
            }
            e(*i)
        }
        _ => {
            let st = *i;
            if b.get(*i) == Some(&'-') {
                *i += 1;
            }
            let digits = |i: &mut usize| {
                let s = *i;
                while *i < b.len() && b[*i].is_ascii_digit() {
                    *i += 1;
                }
                *i - s
            };
            let z = b.get(*i) == Some(&'0');
            let n = digits(i);
            if n == 0 || (z && n > 1) {
                return e(*i);
            }
            if b.get(*i) == Some(&'.') {
                *i += 1;
                if digits(i) == 0 {
                    return e(*i);
                }
            }
            if matches!(b.get(*i), Some('e') | Some('E')) {
                *i += 1;
                if matches!(b.get(*i), Some('+') | Some('-')) {
                    *i += 1;
                }
                if digits(i) == 0 {
                    return e(*i);
                }
            }
            let t: String = b[st..*i].iter().collect();
            t.parse().map(V::Num).map_err(|_| "number".to_string())
        }
    }
}

fn string(b: &[char], i: &mut usize) -> Result<String, String> {
    *i += 1;
    let mut s = String::new();
    loop {
        let c = *b.get(*i).ok_or("eof in string")?;
        *i += 1;
        match c {
            '"' => return Ok(s),
            '\\' => {
                let c = *b.get(*i).ok_or("eof in string")?;
                *i += 1;
                match c {
                    '"' | '\\' | '/' => s.push(c),
                    'b' => s.push('\u{8}'),
                    'f' => s.push('\u{c}'),
                    'n' => s.push('\n'),
                    'r' => s.push('\r'),
                    't' => s.push('\t'),
                    'u' => {
                        let h = hex4(b, i)?;
                        if (0xd800..0xdc00).contains(&h) {
                            if b.get(*i) != Some(&'\\') || b.get(*i + 1) != Some(&'u') {
                                return Err("lone surrogate".into());
                            }
                            *i += 2;
                            let l = hex4(b, i)?;
                            if !(0xdc00..0xe000).contains(&l) {
                                return Err("lone surrogate".into());
                            }
                            s.push(char::from_u32(0x10000 + ((h - 0xd800) << 10) + (l - 0xdc00)).unwrap());
                        } else {
                            s.push(char::from_u32(h).ok_or("lone surrogate")?);
                        }
                    }
                    _ => return Err("bad escape".into()),
                }
            }
            c if (c as u32) < 0x20 => return Err("control character in string".into()),
            c => s.push(c),
        }
    }
}

fn hex4(b: &[char], i: &mut usize) -> Result<u32, String> {
    let t: String = b.get(*i..*i + 4).ok_or("eof in escape")?.iter().collect();
    *i += 4;
    if !t.chars().all(|c| c.is_ascii_hexdigit()) {
        return Err("bad hex".into());
    }
    u32::from_str_radix(&t, 16).map_err(|e| e.to_string())
}
