//! Minimal JSON writer.
#[derive(Default)]
pub struct J(pub String);
impl J {
    pub fn new() -> Self {
        J(String::new())
    }
    fn sep(&mut self) {
        if let Some(c) = self.0.as_bytes().last() {
            if !matches!(c, b'{' | b'[' | b':') {
                self.0.push(',');
            }
        }
    }
    pub fn ob(&mut self) {
        self.sep();
        self.0.push('{');
    }
    pub fn oe(&mut self) {
        self.0.push('}');
    }
    pub fn ab(&mut self) {
        self.sep();
        self.0.push('[');
    }
    pub fn ae(&mut self) {
        self.0.push(']');
    }
    pub fn k(&mut self, key: &str) {
        self.sep();
        self.0.push('"');
        self.0.push_str(key);
        self.0.push_str("\":");
    }
    pub fn i(&mut self, v: i64) {
        self.sep();
        self.0.push_str(&v.to_string());
    }
    pub fn b(&mut self, v: bool) {
        self.sep();
        self.0.push_str(if v { "true" } else { "false" });
    }
    pub fn s(&mut self, v: &str) {
        self.sep();
        self.0.push('"');
        for c in v.chars() {
            match c {
                '"' | '\\' => {
                    self.0.push('\\');
                    self.0.push(c)
                }
                c if (c as u32) < 32 || (c as u32) > 126 => self.0.push(' '),
                c => self.0.push(c),
            }
        }
        self.0.push('"');
    }
    pub fn ki(&mut self, key: &str, v: i64) {
        self.k(key);
        self.i(v);
    }
    pub fn ks(&mut self, key: &str, v: &str) {
        self.k(key);
        self.s(v);
    }
    pub fn kb(&mut self, key: &str, v: bool) {
        self.k(key);
        self.b(v);
    }
    pub fn arr(&mut self, it: impl IntoIterator<Item = i64>) {
        self.ab();
        for v in it {
            self.i(v);
        }
        self.ae();
    }
    pub fn karr(&mut self, key: &str, it: impl IntoIterator<Item = i64>) {
        self.k(key);
        self.arr(it);
    }
}
