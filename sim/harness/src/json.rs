//! A minimal JSON reader and writer (the sandbox is offline; no dependency needed).
use std::collections::BTreeMap;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Int(i128),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(BTreeMap<String, J>),
}
impl J {
    pub fn obj() -> J {
        J::Obj(BTreeMap::new())
    }
    pub fn set(mut self, k: &str, v: impl Into<J>) -> J {
        if let J::Obj(m) = &mut self {
            m.insert(k.to_string(), v.into());
        }
        self
    }
    pub fn get(&self, k: &str) -> &J {
        static N: J = J::Null;
        match self {
            J::Obj(m) => m.get(k).unwrap_or(&N),
            _ => &N,
        }
    }
    pub fn u(&self) -> u64 {
        match self {
            J::Int(i) => *i as u64,
            J::Num(f) => *f as u64,
            _ => 0,
        }
    }
    pub fn f(&self) -> f64 {
        match self {
            J::Int(i) => *i as f64,
            J::Num(f) => *f,
            _ => 0.0,
        }
    }
    pub fn s(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => "",
        }
    }
    pub fn b(&self) -> bool {
        matches!(self, J::Bool(true))
    }
    pub fn a(&self) -> &[J] {
        match self {
            J::Arr(v) => v,
            _ => &[],
        }
    }
    pub fn is_null(&self) -> bool {
        matches!(self, J::Null)
    }
    pub fn opt_u(&self) -> Option<u64> {
        if self.is_null() { None } else { Some(self.u()) }
    }
    pub fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Int(i) => {
                let _ = write!(o, "{i}");
            }
            J::Num(f) => {
                if f.is_finite() {
                    let _ = write!(o, "{f:?}");
                } else {
                    o.push_str("null");
                }
            }
            J::Str(s) => esc(s, o),
            J::Arr(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.write(o);
                }
                o.push(']');
            }
            J::Obj(m) => {
                o.push('{');
                for (i, (k, x)) in m.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(k, o);
                    o.push(':');
                    x.write(o);
                }
                o.push('}');
            }
        }
    }
    pub fn parse(s: &str) -> Result<J, String> {
        let b = s.as_bytes();
        let mut i = 0;
        let v = val(b, &mut i)?;
        ws(b, &mut i);
        if i != b.len() {
            return Err(format!("trailing data at {i}"));
        }
        Ok(v)
    }
}
impl std::fmt::Display for J {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let mut s = String::new();
        self.write(&mut s);
        f.write_str(&s)
    }
}
fn esc(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}
fn ws(b: &[u8], i: &mut usize) {
    while *i < b.len() && (b[*i] as char).is_ascii_whitespace() {
        *i += 1;
    }
}
fn val(b: &[u8], i: &mut usize) -> Result<J, String> {
    ws(b, i);
    match b.get(*i) {
        None => Err("end of input".into()),
        Some(b'{') => {
            *i += 1;
            let mut m = BTreeMap::new();
            ws(b, i);
            if b.get(*i) == Some(&b'}') {
                *i += 1;
                return Ok(J::Obj(m));
            }
            loop {
                let k = match val(b, i)? {
                    J::Str(s) => s,
                    _ => return Err("key".into()),
                };
                ws(b, i);
                if b.get(*i) != Some(&b':') {
                    return Err(format!("':' at {i}"));
                }
                *i += 1;
                m.insert(k, val(b, i)?);
                ws(b, i);
                match b.get(*i) {
                    Some(b',') => *i += 1,
                    Some(b'}') => {
                        *i += 1;
                        return Ok(J::Obj(m));
                    }
                    _ => return Err(format!("object at {i}")),
                }
            }
        }
        Some(b'[') => {
            *i += 1;
            let mut v = vec![];
            ws(b, i);
            if b.get(*i) == Some(&b']') {
                *i += 1;
                return Ok(J::Arr(v));
            }
            loop {
                v.push(val(b, i)?);
                ws(b, i);
                match b.get(*i) {
                    Some(b',') => *i += 1,
                    Some(b']') => {
                        *i += 1;
                        return Ok(J::Arr(v));
                    }
                    _ => return Err(format!("array at {i}")),
                }
            }
        }
        Some(b'"') => {
            *i += 1;
            let mut s: Vec<u8> = vec![];
            loop {
                match b.get(*i) {
                    None => return Err("string".into()),
                    Some(b'"') => {
                        *i += 1;
                        return String::from_utf8(s).map(J::Str).map_err(|e| e.to_string());
                    }
                    Some(b'\\') => {
                        *i += 1;
                        match b.get(*i) {
                            Some(b'n') => s.push(b'\n'),
                            Some(b't') => s.push(b'\t'),
                            Some(b'r') => s.push(b'\r'),
                            Some(b'u') => {
                                let h = std::str::from_utf8(&b[*i + 1..*i + 5]).map_err(|e| e.to_string())?;
                                let c = u32::from_str_radix(h, 16).map_err(|e| e.to_string())?;
                                let mut buf = [0; 4];
                                s.extend_from_slice(char::from_u32(c).unwrap_or('?').encode_utf8(&mut buf).as_bytes());
                                *i += 4;
                            }
                            Some(&c) => s.push(c),
                            None => return Err("escape".into()),
                        }
                        *i += 1;
                    }
                    Some(&c) => {
                        s.push(c);
                        *i += 1;
                    }
                }
            }
        }
        Some(b't') => lit(b, i, "true", J::Bool(true)),
        Some(b'f') => lit(b, i, "false", J::Bool(false)),
        Some(b'n') => lit(b, i, "null", J::Null),
        Some(_) => {
            let st = *i;
            while *i < b.len() && matches!(b[*i], b'0'..=b'9' | b'-' | b'+' | b'.' | b'e' | b'E') {
                *i += 1;
            }
            let t = std::str::from_utf8(&b[st..*i]).unwrap();
            if let Ok(n) = t.parse::<i128>() {
                return Ok(J::Int(n));
            }
            t.parse::<f64>().map(J::Num).map_err(|e| format!("number {t:?}: {e}"))
        }
    }
}
fn lit(b: &[u8], i: &mut usize, w: &str, v: J) -> Result<J, String> {
    if b[*i..].starts_with(w.as_bytes()) {
        *i += w.len();
        Ok(v)
    } else {
        Err(format!("literal at {i}"))
    }
}
macro_rules! from_int { ($($t:ty),*) => { $(impl From<$t> for J { fn from(x: $t) -> J { J::Int(x as i128) } })* } }
from_int!(u8, u16, u32, u64, usize, i32, i64, u128);
impl From<f64> for J {
    fn from(x: f64) -> J {
        J::Num(x)
    }
}
impl From<bool> for J {
    fn from(x: bool) -> J {
        J::Bool(x)
    }
}
impl From<&str> for J {
    fn from(x: &str) -> J {
        J::Str(x.to_string())
    }
}
impl From<String> for J {
    fn from(x: String) -> J {
        J::Str(x)
    }
}
impl<T: Into<J>> From<Vec<T>> for J {
    fn from(x: Vec<T>) -> J {
        J::Arr(x.into_iter().map(Into::into).collect())
    }
}
impl<T: Into<J>> From<Option<T>> for J {
    fn from(x: Option<T>) -> J {
        x.map(Into::into).unwrap_or(J::Null)
    }
}
