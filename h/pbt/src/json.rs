//! Just enough JSON to read replay files and the list of known findings.
#[derive(Debug, Clone)]
pub enum J {
    Null,
    Bool(bool),
    Num(u64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}
impl J {
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(v) => v.iter().find(|x| x.0 == k).map(|x| &x.1),
            _ => None,
        }
    }
    pub fn str(&self) -> Option<&str> {
        match self {
            J::Str(s) => Some(s),
            _ => None,
        }
    }
    pub fn num(&self) -> Option<u64> {
        match self {
            J::Num(n) => Some(*n),
            _ => None,
        }
    }
    pub fn nums(&self) -> Vec<u64> {
        match self {
            J::Arr(v) => v.iter().filter_map(|x| x.num()).collect(),
            _ => vec![],
        }
    }
}
pub fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn parse(s: &str) -> Option<J> {
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    value(&b, &mut i)
}
fn ws(b: &[char], i: &mut usize) {
    while *i < b.len() && b[*i].is_whitespace() {
        *i += 1;
    }
}
fn value(b: &[char], i: &mut usize) -> Option<J> {
    ws(b, i);
    match b.get(*i)? {
        '{' => {
            *i += 1;
            let mut v = vec![];
            loop {
                ws(b, i);
                match b.get(*i)? {
                    '}' => {
                        *i += 1;
                        return Some(J::Obj(v));
                    }
                    ',' => *i += 1,
                    _ => {
                        let J::Str(k) = value(b, i)? else { return None };
                        ws(b, i);
                        if *b.get(*i)? != ':' {
                            return None;
                        }
                        *i += 1;
                        v.push((k, value(b, i)?));
                    }
                }
            }
        }
        '[' => {
            *i += 1;
            let mut v = vec![];
            loop {
                ws(b, i);
                match b.get(*i)? {
                    ']' => {
                        *i += 1;
                        return Some(J::Arr(v));
                    }
                    ',' => *i += 1,
                    _ => v.push(value(b, i)?),
                }
            }
        }
        '"' => {
            *i += 1;
            let mut o = String::new();
            loop {
                let c = *b.get(*i)?;
                *i += 1;
                match c {
                    '"' => return Some(J::Str(o)),
                    '\\' => {
                        let c = *b.get(*i)?;
                        *i += 1;
                        match c {
                            'n' => o.push('\n'),
                            't' => o.push('\t'),
                            'u' => {
                                let h: String = b.get(*i..*i + 4)?.iter().collect();
                                *i += 4;
                                o.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
                            }
                            c => o.push(c),
                        }
                    }
                    c => o.push(c),
                }
            }
        }
        _ => {
            let st = *i;
            while *i < b.len() && !",]} \n\t:".contains(b[*i]) {
                *i += 1;
            }
            let t: String = b[st..*i].iter().collect();
            match t.as_str() {
                "null" => Some(J::Null),
                "true" => Some(J::Bool(true)),
                "false" => Some(J::Bool(false)),
                t => t.parse().ok().map(J::Num),
            }
        }
    }
}
