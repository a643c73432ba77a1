//! Minimal JSON output
pub enum J {
    S(String),
    N(f64),
    I(i64),
    B(bool),
    A(Vec<J>),
    O(Vec<(String, J)>),
}

pub fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}

fn esc(x: &str, out: &mut String) {
    out.push('"');
    for c in x.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                out.push_str(&format!("\\u{:04x}", c as u32))
            }
            c => out.push(c),
        }
    }
    out.push('"');
}

impl J {
    pub fn write(&self, out: &mut String, ind: usize) {
        let pad = "  ".repeat(ind + 1);
        match self {
            J::S(x) => esc(x, out),
            J::N(x) => {
                if x.is_finite() {
                    out.push_str(&format!("{:.3}", x))
                } else {
                    out.push_str("null")
                }
            }
            J::I(x) => out.push_str(&x.to_string()),
            J::B(x) => out.push_str(if *x { "true" } else { "false" }),
            J::A(v) => {
                out.push('[');
                for (i, e) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    out.push('\n');
                    out.push_str(&pad);
                    e.write(out, ind + 1);
                }
                out.push_str("\n");
                out.push_str(&"  ".repeat(ind));
                out.push(']');
            }
            J::O(v) => {
                out.push('{');
                for (i, (k, e)) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    out.push('\n');
                    out.push_str(&pad);
                    esc(k, out);
                    out.push_str(": ");
                    e.write(out, ind + 1);
                }
                out.push_str("\n");
                out.push_str(&"  ".repeat(ind));
                out.push('}');
            }
        }
    }
    pub fn text(&self) -> String {
        let mut o = String::new();
        self.write(&mut o, 0);
        o.push('\n');
        o
    }
}
