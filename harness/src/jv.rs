//! A small JSON reader/writer for the case files (not the code under test).
#[derive(Clone, PartialEq, Debug)]
pub enum J {
    N(i64),
    S(String),
    B(bool),
    A(Vec<J>),
    O(Vec<(String, J)>),
}
impl J {
    pub fn s(&self) -> &str { match self { J::S(x) => x, _ => panic!("string expected: {self:?}") } }
    pub fn n(&self) -> i64 { match self { J::N(x) => *x, _ => panic!("number expected: {self:?}") } }
    pub fn a(&self) -> &Vec<J> { match self { J::A(x) => x, _ => panic!("array expected: {self:?}") } }
    pub fn b(&self) -> bool { matches!(self, J::B(true)) || matches!(self, J::N(1)) }
    pub fn get(&self, k: &str) -> Option<&J> { match self { J::O(m) => m.iter().find(|p| p.0 == k).map(|p| &p.1), _ => None } }
    pub fn at(&self, k: &str) -> &J { self.get(k).unwrap_or_else(|| panic!("no {k} in {self:?}")) }
    pub fn tag(&self) -> &str { self.a()[0].s() }
    pub fn bytes(&self) -> Vec<u8> { self.a().iter().map(|x| x.n() as u8).collect() }
    /// code points, with ["rep", n, [..]] and ["rng", a, b, how] items expanded
    pub fn text(&self) -> String { let mut o = String::new(); self.text_into(&mut o); o }
    fn text_into(&self, o: &mut String) {
        match self {
            J::N(n) => o.push(char::from_u32(*n as u32).expect("scalar")),
            J::A(v) if !v.is_empty() && matches!(&v[0], J::S(t) if t == "rep") => for _ in 0..v[1].n() { v[2].text_into(o) },
            // ["rng", a, b, how]: the scalar values from a to b, as they are, without NUL, escaped with a backslash where needed, or all as \u
            J::A(v) if !v.is_empty() && matches!(&v[0], J::S(t) if t == "rng") => for c in (v[1].n()..=v[2].n()).filter_map(|c| char::from_u32(c as u32)) {
                match v[3].s() {
                    "raw" => o.push(c),
                    how if c == '\0' && how != "esc" => o.push(' '),
                    "nul" => o.push(c),
                    "quo" => { if c == '"' || c == '\\' { o.push('\\') } o.push(c) }
                    _ => for u in c.encode_utf16(&mut [0; 2]) { o.push_str(&if c as u32 % 2 == 0 { format!("\\u{u:04X}") } else { format!("\\u{u:04x}") }) },
                }
            },
            J::A(v) => for x in v { x.text_into(o) },
            _ => panic!("text expected: {self:?}"),
        }
    }
    /// ["cnt", n, [..]] items written out: n instances, the digits of 100000 + i in place of -1
    pub fn expand(&self, i: i64) -> J {
        match self {
            J::A(v) => {
                let mut o = Vec::with_capacity(v.len());
                for x in v {
                    match x {
                        J::N(-1) if i >= 0 => o.extend((100000 + i).to_string().bytes().map(|b| J::N(b as i64))),
                        J::A(w) if w.len() == 3 && matches!(&w[0], J::S(t) if t == "cnt") => for k in 0..w[1].n() { if let J::A(b) = w[2].expand(k) { o.extend(b) } },
                        x => o.push(x.expand(i)),
                    }
                }
                J::A(o)
            }
            J::O(m) => J::O(m.iter().map(|(k, x)| (k.clone(), x.expand(i))).collect()),
            x => x.clone(),
        }
    }
    pub fn write(&self, o: &mut String) {
        match self {
            J::N(n) => o.push_str(&n.to_string()),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::S(s) => {
                o.push('"');
                for c in s.chars() {
                    match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
                }
                o.push('"');
            }
            J::A(v) => { o.push('['); for (i, x) in v.iter().enumerate() { if i > 0 { o.push(',') } x.write(o) } o.push(']'); }
            J::O(m) => { o.push('{'); for (i, (k, x)) in m.iter().enumerate() { if i > 0 { o.push(',') } J::S(k.clone()).write(o); o.push(':'); x.write(o) } o.push('}'); }
        }
    }
    pub fn show(&self) -> String { let mut o = String::new(); self.write(&mut o); o }
}
pub fn cps(s: &str) -> J { J::A(s.chars().map(|c| J::N(c as i64)).collect()) }
pub fn parse(s: &str) -> J {
    let b = s.as_bytes();
    let mut p = 0;
    let v = val(b, &mut p);
    v
}
fn ws(b: &[u8], p: &mut usize) { while *p < b.len() && b[*p].is_ascii_whitespace() { *p += 1 } }
fn val(b: &[u8], p: &mut usize) -> J {
    ws(b, p);
    match b[*p] {
        b'[' => { *p += 1; let mut v = vec![]; loop { ws(b, p); match b[*p] { b']' => { *p += 1; return J::A(v) } b',' => *p += 1, _ => v.push(val(b, p)) } } }
        b'{' => { *p += 1; let mut v = vec![]; loop { ws(b, p); match b[*p] { b'}' => { *p += 1; return J::O(v) } b',' => *p += 1, _ => { let k = string(b, p); ws(b, p); *p += 1; v.push((k, val(b, p))) } } } }
        b'"' => J::S(string(b, p)),
        b't' => { *p += 4; J::B(true) }
        b'f' => { *p += 5; J::B(false) }
        _ => { let s = *p; while *p < b.len() && (b[*p] == b'-' || b[*p].is_ascii_digit()) { *p += 1 } J::N(std::str::from_utf8(&b[s..*p]).unwrap().parse().unwrap()) }
    }
}
pub fn string(b: &[u8], p: &mut usize) -> String {
    *p += 1;
    let mut o: Vec<u8> = vec![];
    while b[*p] != b'"' {
        if b[*p] == b'\\' {
            *p += 1;
            match b[*p] {
                b'n' => o.push(10), b'r' => o.push(13), b't' => o.push(9), b'b' => o.push(8), b'f' => o.push(12),
                b'u' => { let n = u32::from_str_radix(std::str::from_utf8(&b[*p + 1..*p + 5]).unwrap(), 16).unwrap(); *p += 4; o.extend(char::from_u32(n).unwrap_or('?').to_string().bytes()) }
                c => o.push(c),
            }
        } else { o.push(b[*p]) }
        *p += 1;
    }
    *p += 1;
    String::from_utf8(o).unwrap()
}
