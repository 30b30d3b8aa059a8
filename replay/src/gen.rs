//! Input generators.  All randomness comes from `Rng`, seeded by VERIF_SEED.
use crate::model::{Step, M};
use std::collections::BTreeMap;

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545F4914F6CDD1D)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { ((self.next() >> 11) % n as u64) as usize }
    }
    pub fn one(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}
/// literals mined from the current sources; `hot_*` are those the reference sources do not contain
#[derive(Default, Clone)]
pub struct Lits {
    pub strs: Vec<String>,
    pub ints: Vec<u128>,
    pub hot_strs: Vec<String>,
    pub hot_ints: Vec<u128>,
}
const SIZES: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 24, 31, 32, 33, 48, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 5000];
const CHARS: &[char] = &[
    'a', 'b', 'z', 'A', 'F', '0', '9', '"', '\\', '/', '\u{8}', '\u{c}', '\n', '\r', '\t', ' ', '\u{0}', '\u{1}', '\u{b}', '\u{1f}', '~', '\u{7f}', '\u{80}', '\u{a0}', 'é', '\u{ff}', '\u{100}',
    '\u{7ff}', '\u{800}', '\u{fff}', '\u{1000}', '中', '\u{2028}', '\u{2029}', '\u{d7ff}', '\u{e000}', '\u{feff}', '\u{fffd}', '\u{ffff}', '\u{10000}', '\u{103ff}', '\u{10400}', '😀', '\u{fffff}', '\u{100000}',
    '\u{10fc00}', '\u{10ffff}', '{', '}', '[', ']', ',', ':', '.', '#', 'u', 'n', 't', 'f', 'e', '-', '+',
];
const KEYS: &[&str] = &["a", "b", "c", "k", "key", "", "0", "1", "10", "#0", "#", "\\", "\\#0", "a.b", ".", "..", " ", "é", "中", "😀", "null", "\"", "aa", "ab", "A", "Z", "\u{ffff}", "\u{10000}", "x\ny", "true", "-1", "1.5", "+5", "5"];
const NUMS: &[f64] = &[
    0.0, -0.0, 1.0, -1.0, 0.5, 1.5, -2.5, 10.0, 42.0, 100.0, 127.0, 128.0, 255.0, 256.0, -128.0, -129.0, 32767.0, 65535.0, 65536.0, 2147483647.0, 2147483648.0, -2147483648.0, 4294967295.0, 4294967296.0, 9007199254740991.0,
    9007199254740992.0, 9007199254740994.0, 1e15, 1e16, 1e17, 9.223372036854776e18, 1.8446744073709552e19, 1e20, 1e21, 1e22, 1e100, 1e300, 1.7976931348623157e308, -1.7976931348623157e308, 2.2250738585072014e-308, 5e-324, 1e-5, 1e-7, 0.1, 0.2,
    0.30000000000000004, 3.4028234663852886e38, 3.5e38, 1e-46, 1.7014118346046923e38, 3.4028236692093846e38,
];
pub struct G {
    pub r: Rng,
    pub l: Lits,
}
impl G {
    /// a size, biased to small values, then boundaries, then what the sources mention
    pub fn size(&mut self, max: usize) -> usize {
        let k = self.r.below(20);
        let n = if k < 12 {
            self.r.below(4)
        } else if k < 15 {
            self.r.below(12)
        } else if k < 18 && !self.l.hot_ints.is_empty() {
            let h = *self.r.pick(&self.l.hot_ints);
            (h.min(1 << 20) as usize + self.r.below(5)).saturating_sub(2)
        } else if k == 18 && !self.l.ints.is_empty() {
            let h = *self.r.pick(&self.l.ints);
            (h.min(1 << 20) as usize + self.r.below(3)).saturating_sub(1)
        } else {
            *self.r.pick(SIZES)
        };
        if n > max { self.r.below(4.min(max + 1)) } else { n }
    }
    pub fn ch(&mut self) -> char {
        match self.r.below(12) {
            0..=4 => (b'a' + self.r.below(4) as u8) as char,
            5..=7 => *self.r.pick(CHARS),
            8 => (0x20 + self.r.below(0x5f) as u8) as char,
            9 => char::from_u32(self.r.below(0x200) as u32).unwrap(),
            10 if !self.l.hot_ints.is_empty() => {
                let h = *self.r.pick(&self.l.hot_ints);
                char::from_u32((h.min(0x10ffff) as u32).wrapping_add(self.r.below(3) as u32).wrapping_sub(1)).unwrap_or('h')
            }
            10 => char::from_u32(self.r.below(0x10000) as u32).unwrap_or('q'),
            _ => char::from_u32(self.r.below(0x110000) as u32).unwrap_or('r'),
        }
    }
    pub fn string(&mut self, max: usize) -> String {
        match self.r.below(16) {
            0..=2 => self.r.pick(KEYS).to_string(),
            3 | 4 if !self.l.hot_strs.is_empty() => {
                let mut s = self.r.pick(&self.l.hot_strs.clone()).clone();
                match self.r.below(6) {
                    0 => s.push(self.ch()),
                    1 => s.insert(0, self.ch()),
                    2 => {
                        let t = self.r.pick(&self.l.hot_strs.clone()).clone();
                        s.push_str(&t)
                    }
                    _ => {}
                }
                s
            }
            5 if !self.l.strs.is_empty() => self.r.pick(&self.l.strs.clone()).clone(),
            6 => {
                let n = self.size(max);
                let c = self.ch();
                std::iter::repeat(c).take(n).collect()
            }
            7 | 8 => {
                let n = self.size(max);
                (0..n).map(|_| self.ch()).collect()
            }
            _ => {
                let n = self.r.below(5);
                (0..n).map(|_| self.ch()).collect()
            }
        }
    }
    pub fn key(&mut self) -> String {
        if self.r.below(4) < 3 { self.r.pick(&KEYS[..12]).to_string() } else { self.string(64) }
    }
    pub fn num(&mut self) -> f64 {
        match self.r.below(12) {
            0..=2 => *self.r.pick(NUMS),
            3 => self.r.below(300) as f64 - 150.0,
            4 => (self.r.next() as i64) as f64,
            5 => f64::from_bits(self.r.next()),
            6 => self.r.below(100000) as f64 / 1000.0,
            7 => {
                let e = self.r.below(2100) as i32 - 1075;
                let m = 1.0 + self.r.below(1 << 20) as f64 / (1u64 << 20) as f64;
                m * 2f64.powi(e.max(-1000))
            }
            8 | 9 if !self.l.hot_ints.is_empty() => {
                let h = *self.r.pick(&self.l.hot_ints) as f64;
                match self.r.below(5) {
                    0 => -h,
                    1 => h + 1.0,
                    2 => h - 1.0,
                    3 => h + 0.5,
                    _ => h,
                }
            }
            10 => *self.r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0]),
            _ => self.r.below(10) as f64,
        }
    }
    pub fn doc(&mut self, depth: usize, max: usize) -> M {
        let k = if depth == 0 { self.r.below(6) } else { self.r.below(12) };
        match k {
            0 => M::Null,
            1 => M::Bool(self.r.one(2)),
            2 | 3 => M::Num(self.num()),
            4 | 5 => M::Str(self.string(max)),
            6..=8 => self.arr(depth, max),
            _ => self.obj(depth, max),
        }
    }
    pub fn arr(&mut self, depth: usize, max: usize) -> M {
        let n = self.size(max);
        let d = if n > 12 { 0 } else { depth.saturating_sub(1) };
        let m = if n > 12 { 4 } else { max / 4 };
        M::Arr((0..n).map(|_| self.doc(d, m)).collect())
    }
    pub fn obj(&mut self, depth: usize, max: usize) -> M {
        let n = self.size(max);
        let (d, mx) = if n > 12 { (0, 4) } else { (depth.saturating_sub(1), max / 4) };
        let mut m: BTreeMap<String, Vec<M>> = BTreeMap::new();
        for i in 0..n {
            let k = if n > 12 { format!("k{}", i) } else { self.key() };
            let c = if self.r.one(4) { 1 + self.size(max.min(40)) } else { 1 };
            for _ in 0..c {
                let v = self.doc(d, mx);
                m.entry(k.clone()).or_default().push(v);
            }
        }
        M::Obj(m)
    }
    /// nested to some depth
    pub fn deep(&mut self) -> M {
        let n = self.size(120);
        let mut v = self.doc(0, 3);
        for _ in 0..n {
            v = if self.r.one(2) { M::Arr(if self.r.one(3) { vec![M::Null, v] } else { vec![v] }) } else { M::Obj([(self.key(), vec![v])].into_iter().collect()) };
        }
        v
    }
    pub fn root(&mut self) -> M {
        match self.r.below(8) {
            0 => self.deep(),
            1 => self.doc(3, 600),
            2 => self.obj(2, 40),
            3 => self.arr(2, 40),
            _ => self.doc(3, 12),
        }
    }
    pub fn ws(&mut self) -> String {
        if self.r.below(4) < 3 {
            return String::new();
        }
        let n = 1 + self.size(6);
        (0..n).map(|_| *self.r.pick(&[' ', '\t', '\n', '\r'])).collect()
    }
    /// a text of `m`, with varied whitespace and spelling of characters
    pub fn text(&mut self, m: &M) -> String {
        let style = self.r.below(4);
        let mut a = Rng(self.r.next() | 1);
        let mut b = Rng(self.r.next() | 1);
        m.text(
            &mut || {
                if style == 0 || a.below(3) < 2 {
                    String::new()
                } else {
                    let n = 1 + a.below(3);
                    (0..n).map(|_| *a.pick(&[' ', '\t', '\n', '\r'])).collect()
                }
            },
            &mut |c| {
                let u = c as u32;
                if style >= 2 && b.one(3) {
                    let lower = b.one(2);
                    let h = |x: u32| if lower { format!("\\u{:04x}", x) } else { format!("\\u{:04X}", x) };
                    if u < 0x10000 { h(u) } else { h(0xD800 + ((u - 0x10000) >> 10)) + &h(0xDC00 + ((u - 0x10000) & 0x3ff)) }
                } else {
                    match c {
                        '"' => "\\\"".into(),
                        '\\' => "\\\\".into(),
                        '/' if b.one(2) => "\\/".into(),
                        '\u{8}' if b.one(2) => "\\b".into(),
                        '\u{c}' if b.one(2) => "\\f".into(),
                        '\n' if b.one(2) => "\\n".into(),
                        '\r' if b.one(2) => "\\r".into(),
                        '\t' if b.one(2) => "\\t".into(),
                        _ if u < 0x20 => format!("\\u{:04x}", u),
                        _ => c.to_string(),
                    }
                }
            },
        )
    }
    /// number texts of many shapes
    pub fn number_text(&mut self) -> String {
        let mut s = String::new();
        let dg = |g: &mut G, s: &mut String, max: usize| {
            let n = g.size(max);
            for _ in 0..n {
                s.push((b'0' + g.r.below(10) as u8) as char);
            }
        };
        if self.r.one(3) {
            s.push('-');
        }
        match self.r.below(5) {
            0 => s.push('0'),
            1 => {
                s.push((b'1' + self.r.below(9) as u8) as char);
                dg(self, &mut s, 400)
            }
            2 => dg(self, &mut s, 20),
            _ => {
                s.push((b'1' + self.r.below(9) as u8) as char);
                dg(self, &mut s, 20)
            }
        }
        if self.r.one(2) {
            s.push('.');
            dg(self, &mut s, 400)
        }
        if self.r.one(2) {
            s.push(*self.r.pick(&['e', 'E']));
            if self.r.one(2) {
                s.push(*self.r.pick(&['+', '-']));
            }
            match self.r.below(4) {
                0 => dg(self, &mut s, 3),
                1 => s.push_str(&self.r.below(400).to_string()),
                2 => s.push_str(&format!("0{}", self.r.below(20))),
                _ => s.push_str(&self.r.below(30).to_string()),
            }
        }
        s
    }
    pub fn mutate(&mut self, s: &str) -> String {
        const TOK: &[&str] = &["{", "}", "[", "]", ",", ":", "\"", "\\", " ", "\n", "0", "1", "-", "+", ".", "e", "E", "a", "null", "true", "false", "nul", "\\u", "\\ud800", "\\udc00", "\\u00", "\"\"", "[]", "{}", "\"a\"", "\u{1}", "\u{b}", "\u{a0}", "\u{feff}", "é", "/", "//", "/*", "'", "NaN", "Infinity", "\\x", "\\a", "\\'", "\u{0}", "\u{7f}", "\u{85}", "\u{2028}"];
        let mut c: Vec<char> = s.chars().collect();
        let n = 1 + self.r.below(3);
        for _ in 0..n {
            let i = self.r.below(c.len() + 1);
            match self.r.below(6) {
                0 | 1 => {
                    let hot = self.r.one(6) && !self.l.hot_strs.is_empty();
                    let t: Vec<char> = if hot { self.r.pick(&self.l.hot_strs.clone()).chars().collect() } else { self.r.pick(TOK).chars().collect() };
                    for (d, x) in t.into_iter().enumerate() {
                        c.insert(i + d, x);
                    }
                }
                2 if i < c.len() => {
                    c.remove(i);
                }
                3 if i < c.len() => {
                    let t: Vec<char> = self.r.pick(TOK).chars().collect();
                    c[i] = t[0];
                }
                4 if c.len() > 1 => {
                    let j = self.r.below(c.len());
                    let k = self.r.below(c.len());
                    c.swap(j, k);
                }
                5 if i < c.len() => {
                    let e = (i + 1 + self.r.below(4)).min(c.len());
                    let t: Vec<char> = c[i..e].to_vec();
                    for (d, x) in t.into_iter().enumerate() {
                        c.insert(i + d, x);
                    }
                }
                _ => {}
            }
        }
        c.into_iter().collect()
    }
    pub fn parse_text(&mut self) -> String {
        match self.r.below(10) {
            0 => {
                const TOK: &[&str] = &["{", "}", "[", "]", ",", ":", "\"", "\\", " ", "0", "1", "-", ".", "e", "a", "null", "true", "\"a\"", "\"b\"", "[1]", "{\"a\":1}", "\\\"", "\\\\"];
                let n = self.r.below(14);
                (0..n).map(|_| *self.r.pick(TOK)).collect()
            }
            1 => {
                let t = self.number_text();
                match self.r.below(4) {
                    0 => format!("[{}]", t),
                    1 => format!("{{\"a\":{}}}", t),
                    _ => t,
                }
            }
            2 => {
                let m = M::Str(self.string(5000));
                let t = self.text(&m);
                if self.r.one(2) { self.mutate(&t) } else { t }
            }
            3..=5 => {
                let m = self.root();
                self.text(&m)
            }
            6 => {
                let w = self.ws();
                let h = if self.l.hot_strs.is_empty() { String::new() } else { self.r.pick(&self.l.hot_strs.clone()).clone() };
                let m = self.doc(2, 6);
                let t = self.text(&m);
                match self.r.below(4) {
                    0 => w + &h + &t,
                    1 => t + &h + &w,
                    2 => h,
                    _ => format!("[{}{}]", h, t),
                }
            }
            _ => {
                let m = if self.r.one(3) { self.root() } else { self.doc(2, 5) };
                let t = self.text(&m);
                self.mutate(&t)
            }
        }
    }
    // ---- paths
    pub fn idx(&mut self, len: usize) -> usize {
        match self.r.below(10) {
            0..=4 => self.r.below(len + 2),
            5 => len,
            6 => self.size(3000),
            7 => *self.r.pick(&[usize::MAX, usize::MAX - 1, usize::MAX / 2, 1 << 62, 1 << 60, isize::MAX as usize, isize::MAX as usize + 1, usize::MAX / 4, usize::MAX / 8]),
            8 => len.wrapping_sub(1).min(len),
            _ => self.r.below(6),
        }
    }
    /// steps, mostly ones that exist in `m`
    pub fn steps(&mut self, m: &M) -> Vec<Step> {
        let mut v = vec![];
        let mut cur = Some(m);
        let n = 1 + match self.r.below(8) {
            0..=2 => 0,
            3..=4 => 1,
            5 => 2,
            6 => 3 + self.r.below(3),
            _ => self.size(30),
        };
        for _ in 0..n {
            let s = match cur {
                Some(M::Obj(o)) if !self.r.one(6) => {
                    if !o.is_empty() && !self.r.one(5) {
                        let i = self.r.below(o.len());
                        Step::Key(o.keys().nth(i).unwrap().clone())
                    } else {
                        Step::Key(self.key())
                    }
                }
                Some(M::Arr(a)) if !self.r.one(6) => Step::Idx(self.idx(a.len())),
                _ => {
                    if self.r.one(2) {
                        Step::Key(self.key())
                    } else {
                        Step::Idx(self.idx(2))
                    }
                }
            };
            cur = cur.and_then(|c| c.at(&s).ok());
            v.push(s);
        }
        v
    }
    /// a path text that denotes the steps
    pub fn path_of(&mut self, p: &[Step]) -> String {
        let mut o = vec![];
        for s in p {
            o.push(match s {
                Step::Idx(i) => match self.r.below(8) {
                    0 => format!("#0{}", i),
                    1 => format!("#+{}", i),
                    _ => format!("#{}", i),
                },
                Step::Key(k) => {
                    let e = k.replace('.', "\\.");
                    // a trailing backslash would swallow the separator, a leading # or \ needs an escape
                    if k.starts_with('#') || k.starts_with('\\') || self.r.one(9) { format!("\\{}", e) } else { e }
                }
            });
        }
        o.join(".")
    }
    pub fn path_text(&mut self) -> String {
        const TOK: &[&str] = &["a", "b", "k", ".", ".", ".", "#", "#0", "#1", "#2", "\\", "\\", "\\.", "\\#", "0", "1", "9", "+", "-", " ", "é", "😀", "#01", "#+1", "#18446744073709551615", "#18446744073709551616", "x", "..", "\\\\", "#a", "\"", "[", "]", "$"];
        let n = self.r.below(7);
        let mut s: String = (0..n).map(|_| *self.r.pick(TOK)).collect();
        if self.r.one(5) {
            let t = self.string(300);
            s.push_str(&t);
        }
        if self.r.one(8) {
            let t = self.string(300);
            s = t + &s;
        }
        if self.r.one(10) {
            let n = self.size(60);
            let seg = *self.r.pick(&["a", "#1", "", "\\.", "#0"]);
            s = vec![seg; n].join(".") + &s;
        }
        s
    }
}
