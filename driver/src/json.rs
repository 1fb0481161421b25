use std::fmt::Write;
#[derive(Clone, Debug)]
pub enum J {
    Null,
    B(bool),
    N(i128),
    U(u128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
    M(Vec<(String, J)>),
}
pub fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
pub fn n(x: usize) -> J {
    J::N(x as i128)
}
fn esc(o: &mut String, v: &str) {
    o.push('"');
    for c in v.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            },
            c => o.push(c),
        }
    }
    o.push('"');
}
impl J {
    pub fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::N(n) => {
                let _ = write!(o, "{}", n);
            },
            J::U(n) => {
                let _ = write!(o, "{}", n);
            },
            J::S(v) => esc(o, v),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            },
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(o, k);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            },
            J::M(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(o, k);
                    o.push(':');
                    x.w(o);
                    if i % 1 == 0 {
                        o.push('\n');
                    }
                }
                o.push('}');
            },
        }
    }
}
