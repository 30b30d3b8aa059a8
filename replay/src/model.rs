//! An independent model of JSON values, RFC 8259 and the path operations, used as oracle.
use json::{Error, ErrorKind, Json};
use std::collections::{BTreeMap, HashMap, LinkedList};

#[derive(Clone, Debug)]
pub enum M {
    Obj(BTreeMap<String, Vec<M>>),
    Arr(Vec<M>),
    Str(String),
    Num(f64),
    Bool(bool),
    Null,
}
use M::*;

impl PartialEq for M {
    fn eq(&self, o: &M) -> bool {
        match (self, o) {
            (Obj(a), Obj(b)) => a == b,
            (Arr(a), Arr(b)) => a == b,
            (Str(a), Str(b)) => a == b,
            (Num(a), Num(b)) => a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()),
            (Bool(a), Bool(b)) => a == b,
            (Null, Null) => true,
            _ => false,
        }
    }
}

impl M {
    pub fn json(&self) -> Json {
        match self {
            Obj(m) => {
                let mut h = HashMap::new();
                for (k, v) in m {
                    let mut l = LinkedList::new();
                    for x in &v[..v.len() - 1] {
                        l.push_front(x.json());
                    }
                    h.insert(k.clone(), (v[v.len() - 1].json(), l));
                }
                Json::Object(h)
            }
            Arr(a) => Json::Array(a.iter().map(|x| x.json()).collect()),
            Str(s) => Json::String(s.clone()),
            Num(n) => Json::Number(*n),
            Bool(b) => Json::Boolean(*b),
            Null => Json::Null,
        }
    }
    /// same value, other insertion order and capacity
    pub fn json2(&self) -> Json {
        match self {
            Obj(m) => {
                let mut h = HashMap::with_capacity(m.len() * 7 + 3);
                for (k, v) in m.iter().rev() {
                    let mut l = LinkedList::new();
                    for x in &v[..v.len() - 1] {
                        l.push_front(x.json2());
                    }
                    h.insert(k.clone(), (v[v.len() - 1].json2(), l));
                }
                Json::Object(h)
            }
            Arr(a) => Json::Array(a.iter().map(|x| x.json2()).collect()),
            _ => self.json(),
        }
    }
    pub fn of(j: &Json) -> M {
        match j {
            Json::Object(h) => Obj(h
                .iter()
                .map(|(k, (j, l))| {
                    let mut v: Vec<M> = l.iter().rev().map(M::of).collect();
                    v.push(M::of(j));
                    (k.clone(), v)
                })
                .collect()),
            Json::Array(a) => Arr(a.iter().map(M::of).collect()),
            Json::String(s) => Str(s.clone()),
            Json::Number(n) => Num(*n),
            Json::Boolean(b) => Bool(*b),
            Json::Null => Null,
        }
    }
    /// what serialization may keep: numbers JSON cannot represent become null
    pub fn norm(&self) -> M {
        match self {
            Obj(m) => Obj(m.iter().map(|(k, v)| (k.clone(), v.iter().map(|x| x.norm()).collect())).collect()),
            Arr(a) => Arr(a.iter().map(|x| x.norm()).collect()),
            Num(n) if !n.is_finite() => Null,
            x => x.clone(),
        }
    }
    pub fn finite(&self) -> bool {
        match self {
            Obj(m) => m.values().all(|v| v.iter().all(|x| x.finite())),
            Arr(a) => a.iter().all(|x| x.finite()),
            Num(n) => n.is_finite(),
            _ => true,
        }
    }
    // ---- text form used in recorded cases
    pub fn enc(&self) -> String {
        let mut s = String::new();
        self.enc_to(&mut s);
        s
    }
    fn enc_to(&self, o: &mut String) {
        match self {
            Null => o.push('n'),
            Bool(true) => o.push('t'),
            Bool(false) => o.push('f'),
            Num(n) => o.push_str(&format!("N{:016x}", n.to_bits())),
            Str(s) => o.push_str(&format!("S{}:{}", s.len(), s)),
            Arr(a) => {
                o.push_str(&format!("A{}:", a.len()));
                for x in a {
                    x.enc_to(o);
                }
            }
            Obj(m) => {
                o.push_str(&format!("O{}:", m.len()));
                for (k, v) in m {
                    o.push_str(&format!("{}:{}", k.len(), k));
                    o.push_str(&format!("{}:", v.len()));
                    for x in v {
                        x.enc_to(o);
                    }
                }
            }
        }
    }
    pub fn dec(s: &str) -> M {
        let mut p = 0;
        M::dec_at(s, &mut p)
    }
    fn num_at(s: &str, p: &mut usize) -> usize {
        let e = s[*p..].find(':').unwrap() + *p;
        let n = s[*p..e].parse().unwrap();
        *p = e + 1;
        n
    }
    fn dec_at(s: &str, p: &mut usize) -> M {
        let c = s.as_bytes()[*p];
        *p += 1;
        match c {
            b'n' => Null,
            b't' => Bool(true),
            b'f' => Bool(false),
            b'N' => {
                let v = u64::from_str_radix(&s[*p..*p + 16], 16).unwrap();
                *p += 16;
                Num(f64::from_bits(v))
            }
            b'S' => {
                let n = M::num_at(s, p);
                let r = s[*p..*p + n].to_string();
                *p += n;
                Str(r)
            }
            b'A' => {
                let n = M::num_at(s, p);
                Arr((0..n).map(|_| M::dec_at(s, p)).collect())
            }
            b'O' => {
                let n = M::num_at(s, p);
                let mut m = BTreeMap::new();
                for _ in 0..n {
                    let l = M::num_at(s, p);
                    let k = s[*p..*p + l].to_string();
                    *p += l;
                    let c = M::num_at(s, p);
                    m.insert(k, (0..c).map(|_| M::dec_at(s, p)).collect());
                }
                Obj(m)
            }
            _ => panic!("bad case file"),
        }
    }
    /// a JSON text for humans and for generating inputs; `sp` yields whitespace, `es` decides how to spell a character
    pub fn text(&self, sp: &mut dyn FnMut() -> String, es: &mut dyn FnMut(char) -> String) -> String {
        let mut o = sp();
        match self {
            Null => o.push_str("null"),
            Bool(b) => o.push_str(&b.to_string()),
            Num(n) => {
                if n.is_finite() {
                    o.push_str(&num_text(*n))
                } else {
                    o.push_str("null")
                }
            }
            Str(s) => o.push_str(&str_text(s, es)),
            Arr(a) => {
                o.push('[');
                if a.is_empty() {
                    o.push_str(&sp());
                }
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    o.push_str(&x.text(sp, es));
                }
                o.push(']');
            }
            Obj(m) => {
                o.push('{');
                if m.is_empty() {
                    o.push_str(&sp());
                }
                let mut first = true;
                for (k, v) in m {
                    for x in v {
                        if !first {
                            o.push(',');
                        }
                        first = false;
                        o.push_str(&sp());
                        o.push_str(&str_text(k, es));
                        o.push_str(&sp());
                        o.push(':');
                        o.push_str(&x.text(sp, es));
                    }
                }
                o.push('}');
            }
        }
        o.push_str(&sp());
        o
    }
    pub fn plain(&self) -> String {
        self.text(&mut || String::new(), &mut |c| esc_min(c))
    }
}
pub fn num_text(n: f64) -> String {
    // shortest exponent form: 1.5e300 etc. is a JSON number
    let s = format!("{:e}", n);
    if s.len() > 12 { s } else { format!("{}", n) }
}
pub fn esc_min(c: char) -> String {
    match c {
        '"' => "\\\"".into(),
        '\\' => "\\\\".into(),
        c if (c as u32) < 0x20 => format!("\\u{:04x}", c as u32),
        c => c.to_string(),
    }
}
fn str_text(s: &str, es: &mut dyn FnMut(char) -> String) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        o.push_str(&es(c));
    }
    o.push('"');
    o
}

// ---- RFC 8259 ------------------------------------------------------------------------------------
pub struct P<'a> {
    t: &'a [char],
    p: usize,
}
pub fn rfc(s: &str) -> Option<M> {
    let t: Vec<char> = s.chars().collect();
    let mut p = P { t: &t, p: 0 };
    p.ws();
    let v = p.value()?;
    p.ws();
    if p.p == t.len() { Some(v) } else { None }
}
impl<'a> P<'a> {
    fn peek(&self) -> Option<char> {
        self.t.get(self.p).copied()
    }
    fn ws(&mut self) {
        while matches!(self.peek(), Some(' ' | '\t' | '\n' | '\r')) {
            self.p += 1;
        }
    }
    fn eat(&mut self, c: char) -> Option<()> {
        if self.peek() == Some(c) {
            self.p += 1;
            Some(())
        } else {
            None
        }
    }
    fn lit(&mut self, s: &str, v: M) -> Option<M> {
        for c in s.chars() {
            self.eat(c)?;
        }
        Some(v)
    }
    fn value(&mut self) -> Option<M> {
        match self.peek()? {
            'n' => self.lit("null", Null),
            't' => self.lit("true", Bool(true)),
            'f' => self.lit("false", Bool(false)),
            '"' => self.string().map(Str),
            '[' => {
                self.p += 1;
                let mut a = vec![];
                self.ws();
                if self.eat(']').is_some() {
                    return Some(Arr(a));
                }
                loop {
                    self.ws();
                    a.push(self.value()?);
                    self.ws();
                    if self.eat(',').is_some() {
                        continue;
                    }
                    self.eat(']')?;
                    return Some(Arr(a));
                }
            }
            '{' => {
                self.p += 1;
                let mut m: BTreeMap<String, Vec<M>> = BTreeMap::new();
                self.ws();
                if self.eat('}').is_some() {
                    return Some(Obj(m));
                }
                loop {
                    self.ws();
                    let k = self.string()?;
                    self.ws();
                    self.eat(':')?;
                    self.ws();
                    let v = self.value()?;
                    m.entry(k).or_default().push(v);
                    self.ws();
                    if self.eat(',').is_some() {
                        continue;
                    }
                    self.eat('}')?;
                    return Some(Obj(m));
                }
            }
            '-' | '0'..='9' => self.number(),
            _ => None,
        }
    }
    fn digits(&mut self) -> Option<()> {
        let b = self.p;
        while matches!(self.peek(), Some('0'..='9')) {
            self.p += 1;
        }
        if self.p > b { Some(()) } else { None }
    }
    fn number(&mut self) -> Option<M> {
        let b = self.p;
        let _ = self.eat('-');
        if self.eat('0').is_none() {
            self.digits()?;
        }
        if self.eat('.').is_some() {
            self.digits()?;
        }
        if self.eat('e').is_some() || self.eat('E').is_some() {
            if self.eat('+').is_none() {
                let _ = self.eat('-');
            }
            self.digits()?;
        }
        let s: String = self.t[b..self.p].iter().collect();
        let f: f64 = s.parse().ok()?;
        if f.is_finite() { Some(Num(f)) } else { None }
    }
    fn hex4(&mut self) -> Option<u32> {
        let mut u = 0;
        for _ in 0..4 {
            u = u * 16 + self.peek()?.to_digit(16)?;
            self.p += 1;
        }
        Some(u)
    }
    fn string(&mut self) -> Option<String> {
        self.eat('"')?;
        let mut o = String::new();
        loop {
            let c = self.peek()?;
            self.p += 1;
            match c {
                '"' => return Some(o),
                '\\' => {
                    let e = self.peek()?;
                    self.p += 1;
                    match e {
                        '"' | '\\' | '/' => o.push(e),
                        'b' => o.push('\u{8}'),
                        'f' => o.push('\u{c}'),
                        'n' => o.push('\n'),
                        'r' => o.push('\r'),
                        't' => o.push('\t'),
                        'u' => {
                            let u = self.hex4()?;
                            if (0xD800..0xDC00).contains(&u) {
                                self.eat('\\')?;
                                self.eat('u')?;
                                let l = self.hex4()?;
                                if !(0xDC00..0xE000).contains(&l) {
                                    return None;
                                }
                                o.push(char::from_u32(0x10000 + ((u - 0xD800) << 10) + (l - 0xDC00))?);
                            } else {
                                o.push(char::from_u32(u)?);
                            }
                        }
                        _ => return None,
                    }
                }
                c if (c as u32) < 0x20 => return None,
                c => o.push(c),
            }
        }
    }
}

// ---- paths -----------------------------------------------------------------------------------------
#[derive(Clone, Debug, PartialEq)]
pub enum Step {
    Key(String),
    Idx(usize),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum K {
    Parse,
    MissingKey,
    IndexOutOfRange,
    InvalidValueKind,
    PathSyntax,
    Convert,
}
pub fn kind(e: &Error) -> K {
    match e.kind {
        ErrorKind::MissingKey => K::MissingKey,
        ErrorKind::IndexOutOfRange => K::IndexOutOfRange,
        ErrorKind::InvalidValueKind => K::InvalidValueKind,
        ErrorKind::PathSyntaxError => K::PathSyntax,
        ErrorKind::ConvertError => K::Convert,
        _ => K::Parse,
    }
}
pub fn steps(s: &str) -> Result<Vec<Step>, K> {
    if s.is_empty() {
        return Err(K::PathSyntax);
    }
    // split at dots that no backslash precedes
    let cs: Vec<char> = s.chars().collect();
    let mut segs: Vec<String> = vec![String::new()];
    for (i, &c) in cs.iter().enumerate() {
        if c == '.' && !(i > 0 && cs[i - 1] == '\\') {
            segs.push(String::new());
        } else {
            segs.last_mut().unwrap().push(c);
        }
    }
    let mut r = vec![];
    for seg in segs {
        let seg = seg.replace("\\.", ".");
        if let Some(n) = seg.strip_prefix('#') {
            let d = n.strip_prefix('+').unwrap_or(n);
            if d.is_empty() || !d.chars().all(|c| c.is_ascii_digit()) {
                return Err(K::PathSyntax);
            }
            let mut v: u128 = 0;
            for c in d.chars() {
                v = v.saturating_mul(10).saturating_add(c as u128 - '0' as u128);
                if v > usize::MAX as u128 {
                    return Err(K::PathSyntax);
                }
            }
            r.push(Step::Idx(v as usize));
        } else if let Some(k) = seg.strip_prefix('\\') {
            r.push(Step::Key(k.to_string()));
        } else {
            r.push(Step::Key(seg));
        }
    }
    Ok(r)
}
impl M {
    pub fn at(&self, s: &Step) -> Result<&M, K> {
        match (s, self) {
            (Step::Key(k), Obj(m)) => m.get(k).map(|v| v.last().unwrap()).ok_or(K::MissingKey),
            (Step::Idx(i), Arr(a)) => a.get(*i).ok_or(K::IndexOutOfRange),
            _ => Err(K::InvalidValueKind),
        }
    }
    pub fn at_mut(&mut self, s: &Step) -> Result<&mut M, K> {
        match (s, self) {
            (Step::Key(k), Obj(m)) => m.get_mut(k).map(|v| v.last_mut().unwrap()).ok_or(K::MissingKey),
            (Step::Idx(i), Arr(a)) => a.get_mut(*i).ok_or(K::IndexOutOfRange),
            _ => Err(K::InvalidValueKind),
        }
    }
    pub fn find(&self, p: &[Step]) -> Result<&M, K> {
        let mut v = self;
        for s in p {
            v = v.at(s)?;
        }
        Ok(v)
    }
    pub fn find_mut(&mut self, p: &[Step]) -> Result<&mut M, K> {
        let mut v = self;
        for s in p {
            v = v.at_mut(s)?;
        }
        Ok(v)
    }
    pub fn update(&mut self, p: &[Step], x: M) -> Result<(), K> {
        let (s, rest) = (&p[0], &p[1..]);
        if !rest.is_empty() && self.at(s).is_ok() {
            return self.at_mut(s).unwrap().update(rest, x);
        }
        let here = if rest.is_empty() { x.clone() } else { Null };
        match s {
            Step::Key(k) => {
                if !matches!(self, Obj(_)) {
                    *self = Obj(BTreeMap::new());
                }
                if let Obj(m) = self {
                    m.insert(k.clone(), vec![here]);
                }
            }
            Step::Idx(i) => {
                if *i >= 1 << 57 {
                    return Err(K::IndexOutOfRange);
                }
                if !matches!(self, Arr(_)) {
                    *self = Arr(vec![]);
                }
                if let Arr(a) = self {
                    if a.len() <= *i {
                        a.resize(*i + 1, Null);
                    }
                    a[*i] = here;
                }
            }
        }
        if rest.is_empty() { Ok(()) } else { self.at_mut(s).unwrap().update(rest, x) }
    }
    pub fn discard(&mut self, p: &[Step]) -> Result<M, K> {
        let (l, pre) = p.split_last().unwrap();
        let v = self.find_mut(pre)?;
        let r = v.at(l)?.clone();
        match (l, v) {
            (Step::Key(k), Obj(m)) => {
                m.remove(k);
            }
            (Step::Idx(i), Arr(a)) => {
                a.remove(*i);
            }
            _ => unreachable!(),
        }
        Ok(r)
    }
}
