//! Minimal JSON writer.

pub enum J {
    Null,
    Bool(bool),
    Num(i128),
    /// A decision diagram.
    Dd(u32),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

impl J {
    pub fn s(x: impl Into<String>) -> J {
        J::Str(x.into())
    }
    pub fn bits(x: &[u32]) -> J {
        J::Arr(x.iter().map(|&b| if b == crate::dd::U { J::Null } else { J::Dd(b) }).collect())
    }
    /// Applies `f` to every diagram reference.
    pub fn visit(&mut self, f: &mut impl FnMut(&mut u32)) {
        match self {
            J::Dd(b) => f(b),
            J::Arr(v) => v.iter_mut().for_each(|x| x.visit(f)),
            J::Obj(v) => v.iter_mut().for_each(|x| x.1.visit(f)),
            _ => {}
        }
    }
    pub fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Num(n) => o.push_str(&n.to_string()),
            J::Dd(n) => o.push_str(&n.to_string()),
            J::Str(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::Arr(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.write(o);
                }
                o.push(']');
            }
            J::Obj(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    J::s(k.clone()).write(o);
                    o.push(':');
                    x.write(o);
                }
                o.push('}');
            }
        }
    }
}

#[macro_export]
macro_rules! obj {
    ($($k:expr => $v:expr),* $(,)?) => { $crate::json::J::Obj(vec![$(($k.to_string(), $v)),*]) };
}
