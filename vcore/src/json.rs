//! Just enough JSON.

pub fn string(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn array<I: Iterator<Item = String>>(i: I) -> String {
    format!("[{}]", i.collect::<Vec<_>>().join(", "))
}

#[derive(Default)]
pub struct Obj(Vec<String>);

impl Obj {
    pub fn new() -> Obj {
        Obj::default()
    }
    pub fn raw(&mut self, k: &str, v: String) {
        self.0.push(format!("{}: {}", string(k), v));
    }
    pub fn str(&mut self, k: &str, v: &str) {
        self.raw(k, string(v));
    }
    pub fn num(&mut self, k: &str, v: f64) {
        self.raw(k, format!("{}", v));
    }
    pub fn finish(self) -> String {
        format!("{{{}}}", self.0.join(", "))
    }
}

#[derive(Debug, Clone)]
pub enum Value {
    Null,
    Bool(bool),
    Num(f64),
    Str(String),
    Arr(Vec<Value>),
    Obj(Vec<(String, Value)>),
}

impl Value {
    pub fn get(&self, k: &str) -> Option<&Value> {
        match self {
            Value::Obj(v) => v.iter().find(|(n, _)| n == k).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn as_str(&self) -> Option<&str> {
        match self {
            Value::Str(s) => Some(s),
            _ => None,
        }
    }
    pub fn items(&self) -> &[Value] {
        match self {
            Value::Arr(v) => v,
            _ => &[],
        }
    }
}

pub fn parse(s: &str) -> Option<Value> {
    let mut p = Parser {
        s: s.as_bytes(),
        i: 0,
    };
    let v = p.value()?;
    p.ws();
    if p.i == p.s.len() {
        Some(v)
    } else {
        None
    }
}

struct Parser<'a> {
    s: &'a [u8],
    i: usize,
}

impl<'a> Parser<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() && self.s[self.i].is_ascii_whitespace() {
            self.i += 1;
        }
    }
    fn eat(&mut self, c: u8) -> Option<()> {
        self.ws();
        if self.s.get(self.i) == Some(&c) {
            self.i += 1;
            Some(())
        } else {
            None
        }
    }
    fn peek(&mut self) -> Option<u8> {
        self.ws();
        self.s.get(self.i).copied()
    }
    fn lit(&mut self, t: &str, v: Value) -> Option<Value> {
        if self.s[self.i..].starts_with(t.as_bytes()) {
            self.i += t.len();
            Some(v)
        } else {
            None
        }
    }
    fn value(&mut self) -> Option<Value> {
        match self.peek()? {
            b'{' => {
                self.eat(b'{')?;
                let mut v = vec![];
                if self.peek()? == b'}' {
                    self.eat(b'}')?;
                    return Some(Value::Obj(v));
                }
                loop {
                    self.ws();
                    let k = self.string()?;
                    self.eat(b':')?;
                    v.push((k, self.value()?));
                    if self.peek()? == b',' {
                        self.eat(b',')?;
                    } else {
                        self.eat(b'}')?;
                        return Some(Value::Obj(v));
                    }
                }
            }
            b'[' => {
                self.eat(b'[')?;
                let mut v = vec![];
                if self.peek()? == b']' {
                    self.eat(b']')?;
                    return Some(Value::Arr(v));
                }
                loop {
                    v.push(self.value()?);
                    if self.peek()? == b',' {
                        self.eat(b',')?;
                    } else {
                        self.eat(b']')?;
                        return Some(Value::Arr(v));
                    }
                }
            }
            b'"' => self.string().map(Value::Str),
            b't' => self.lit("true", Value::Bool(true)),
            b'f' => self.lit("false", Value::Bool(false)),
            b'n' => self.lit("null", Value::Null),
            _ => {
                let st = self.i;
                while self.i < self.s.len() && b"+-.eE0123456789".contains(&self.s[self.i]) {
                    self.i += 1;
                }
                std::str::from_utf8(&self.s[st..self.i]).ok()?.parse().ok().map(Value::Num)
            }
        }
    }
    fn string(&mut self) -> Option<String> {
        self.eat(b'"')?;
        let mut o = Vec::new();
        loop {
            let c = *self.s.get(self.i)?;
            self.i += 1;
            match c {
                b'"' => return String::from_utf8(o).ok(),
                b'\\' => {
                    let e = *self.s.get(self.i)?;
                    self.i += 1;
                    match e {
                        b'n' => o.push(b'\n'),
                        b't' => o.push(b'\t'),
                        b'r' => o.push(b'\r'),
                        b'b' => o.push(8),
                        b'f' => o.push(12),
                        b'u' => {
                            let h = std::str::from_utf8(self.s.get(self.i..self.i + 4)?).ok()?;
                            self.i += 4;
                            let c = char::from_u32(u32::from_str_radix(h, 16).ok()?)
                                .unwrap_or('\u{fffd}');
                            let mut b = [0; 4];
                            o.extend_from_slice(c.encode_utf8(&mut b).as_bytes());
                        }
                        e => o.push(e),
                    }
                }
                c => o.push(c),
            }
        }
    }
}
