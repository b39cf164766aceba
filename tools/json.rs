// Minimal JSON, shared by the harness tools (no dependency needed).
use std::collections::BTreeMap;
#[derive(Debug, Clone, PartialEq)]
pub enum J { Null, Bool(bool), Num(f64), Str(String), Arr(Vec<J>), Obj(Vec<(String, J)>) }
#[allow(dead_code)]
impl J {
    pub fn s(v: impl Into<String>) -> J { J::Str(v.into()) }
    pub fn get(&self, k: &str) -> Option<&J> { if let J::Obj(o) = self { o.iter().find(|(n, _)| n == k).map(|(_, v)| v) } else { None } }
    pub fn str(&self) -> Option<&str> { if let J::Str(s) = self { Some(s) } else { None } }
    pub fn gs(&self, k: &str) -> Option<&str> { self.get(k).and_then(|j| j.str()) }
    pub fn arr(&self) -> &[J] { if let J::Arr(a) = self { a } else { &[] } }
    pub fn obj(&self) -> BTreeMap<&str, &J> { if let J::Obj(o) = self { o.iter().map(|(a, b)| (a.as_str(), b)).collect() } else { BTreeMap::new() } }
    pub fn render(&self) -> String { let mut o = String::new(); self.w(&mut o); o }
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Num(n) => o.push_str(&format!("{}", n)),
            J::Str(s) => ws(s, o),
            J::Arr(a) => { o.push('['); for (i, x) in a.iter().enumerate() { if i > 0 { o.push(',') } x.w(o) } o.push(']') }
            J::Obj(a) => { o.push('{'); for (i, (k, x)) in a.iter().enumerate() { if i > 0 { o.push(',') } ws(k, o); o.push(':'); x.w(o) } o.push('}') }
        }
    }
    pub fn parse(s: &str) -> J { let c: Vec<char> = s.chars().collect(); let mut p = 0; val(&c, &mut p) }
}
fn ws(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\r' => o.push_str("\\r"), '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 || (c as u32) == 0x2028 || (c as u32) == 0x2029 || (c as u32) == 0x85 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
    }
    o.push('"');
}
fn sk(c: &[char], p: &mut usize) { while *p < c.len() && c[*p].is_whitespace() { *p += 1 } }
fn val(c: &[char], p: &mut usize) -> J {
    sk(c, p);
    match c[*p] {
        'n' => { *p += 4; J::Null }
        't' => { *p += 4; J::Bool(true) }
        'f' => { *p += 5; J::Bool(false) }
        '"' => J::Str(st(c, p)),
        '[' => { *p += 1; let mut a = vec![]; loop { sk(c, p); if c[*p] == ']' { *p += 1; return J::Arr(a) } if c[*p] == ',' { *p += 1; continue } a.push(val(c, p)) } }
        '{' => { *p += 1; let mut a = vec![]; loop { sk(c, p); if c[*p] == '}' { *p += 1; return J::Obj(a) } if c[*p] == ',' { *p += 1; continue } let k = st(c, p); sk(c, p); *p += 1; let v = val(c, p); a.push((k, v)) } }
        _ => { let b = *p; while *p < c.len() && "+-.eE0123456789".contains(c[*p]) { *p += 1 } J::Num(c[b..*p].iter().collect::<String>().parse().unwrap()) }
    }
}
fn st(c: &[char], p: &mut usize) -> String {
    let mut o = String::new(); *p += 1;
    while c[*p] != '"' {
        if c[*p] == '\\' { *p += 1; match c[*p] {
            'n' => o.push('\n'), 't' => o.push('\t'), 'r' => o.push('\r'), 'b' => o.push('\u{8}'), 'f' => o.push('\u{c}'),
            'u' => { let h = |q: usize| u32::from_str_radix(&c[q..q + 4].iter().collect::<String>(), 16).unwrap(); let mut x = h(*p + 1); *p += 4;
                if (0xd800..0xdc00).contains(&x) { let y = h(*p + 3); *p += 6; x = 0x10000 + ((x - 0xd800) << 10) + (y - 0xdc00) } o.push(char::from_u32(x).unwrap_or('\u{fffd}')) }
            x => o.push(x) } } else { o.push(c[*p]) }
        *p += 1;
    }
    *p += 1; o
}
