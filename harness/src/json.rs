//! A minimal JSON reader and writer (no dependencies).
#[derive(Debug, Clone, PartialEq)]
pub enum J { Null, Bool(bool), Num(i64), Str(String), Arr(Vec<J>), Obj(Vec<(String, J)>) }

impl J {
    pub fn arr(&self) -> &[J] { match self { J::Arr(v) => v, _ => &[] } }
    pub fn num(&self) -> i64 { match self { J::Num(n) => *n, _ => panic!("json: number expected, got {:?}", self) } }
    pub fn str(&self) -> &str { match self { J::Str(s) => s, _ => panic!("json: string expected, got {:?}", self) } }
    pub fn nums(&self) -> Vec<i64> { self.arr().iter().map(|x| x.num()).collect() }
    pub fn get(&self, k: &str) -> Option<&J> { match self { J::Obj(v) => v.iter().find(|x| x.0 == k).map(|x| &x.1), _ => None } }
    pub fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Num(n) => o.push_str(&n.to_string()),
            J::Str(s) => { o.push('"'); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c => o.push(c) } } o.push('"') }
            J::Arr(v) => { o.push('['); for (i, x) in v.iter().enumerate() { if i > 0 { o.push(',') } x.write(o) } o.push(']') }
            J::Obj(v) => { o.push('{'); for (i, (k, x)) in v.iter().enumerate() { if i > 0 { o.push(',') } J::Str(k.clone()).write(o); o.push(':'); x.write(o) } o.push('}') }
        }
    }
}
impl std::fmt::Display for J {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { let mut s = String::new(); self.write(&mut s); f.write_str(&s) }
}

struct R<'a> { b: &'a [u8], i: usize }
impl<'a> R<'a> {
    fn ws(&mut self) { while self.i < self.b.len() && (self.b[self.i] as char).is_whitespace() { self.i += 1 } }
    fn val(&mut self) -> Result<J, String> {
        self.ws();
        if self.i >= self.b.len() { return Err("eof".into()) }
        match self.b[self.i] {
            b'[' => { self.i += 1; let mut v = vec![]; self.ws();
                if self.b.get(self.i) == Some(&b']') { self.i += 1; return Ok(J::Arr(v)) }
                loop { v.push(self.val()?); self.ws();
                    match self.b.get(self.i) { Some(b',') => self.i += 1, Some(b']') => { self.i += 1; return Ok(J::Arr(v)) }, _ => return Err("array".into()) } } }
            b'{' => { self.i += 1; let mut v = vec![]; self.ws();
                if self.b.get(self.i) == Some(&b'}') { self.i += 1; return Ok(J::Obj(v)) }
                loop { self.ws(); let k = match self.val()? { J::Str(s) => s, _ => return Err("key".into()) }; self.ws();
                    if self.b.get(self.i) != Some(&b':') { return Err("colon".into()) } self.i += 1;
                    v.push((k, self.val()?)); self.ws();
                    match self.b.get(self.i) { Some(b',') => self.i += 1, Some(b'}') => { self.i += 1; return Ok(J::Obj(v)) }, _ => return Err("object".into()) } } }
            b'"' => { self.i += 1; let mut s = Vec::new();
                loop { match self.b.get(self.i) { None => return Err("string".into()),
                    Some(b'"') => { self.i += 1; return Ok(J::Str(String::from_utf8_lossy(&s).into_owned())) }
                    Some(b'\\') => { let c = *self.b.get(self.i + 1).ok_or("esc")?; s.push(match c { b'n' => b'\n', b't' => b'\t', c => c }); self.i += 2 }
                    Some(c) => { s.push(*c); self.i += 1 } } } }
            b't' => { self.i += 4; Ok(J::Bool(true)) }
            b'f' => { self.i += 5; Ok(J::Bool(false)) }
            b'n' => { self.i += 4; Ok(J::Null) }
            _ => { let st = self.i; if self.b[self.i] == b'-' { self.i += 1 }
                while self.i < self.b.len() && self.b[self.i].is_ascii_digit() { self.i += 1 }
                std::str::from_utf8(&self.b[st..self.i]).unwrap().parse::<i64>().map(J::Num).map_err(|e| format!("num {} at {}", e, st)) }
        }
    }
}
pub fn parse(s: &str) -> Result<J, String> { let mut r = R { b: s.as_bytes(), i: 0 }; r.val() }
/// TLC's PrintT(ToJson(..)) prints a quoted string with escaped inner quotes.
pub fn parse_tlc(line: &str) -> Option<J> {
    let l = line.trim_end();
    if !l.starts_with("\"[") || !l.ends_with("]\"") { return None }
    let inner = &l[1..l.len() - 1];
    if inner.contains('\\') { parse(&inner.replace("\\\"", "\"").replace("\\\\", "\\")).ok() } else { parse(inner).ok() }
}
