//! Independent codec for the two wire encodings of replays, driven by the wire schema in
//! ../schema (extracted once from the protocol description) and by the static tables below.
use crate::sim::fs::bstr;
use crate::sim::rng::Rng;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::HashMap;
use std::sync::OnceLock;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum V {
    #[serde(rename = "n")]
    Null,
    #[serde(rename = "i")]
    I(i64),
    #[serde(rename = "b")]
    B(bool),
    /// byte string
    #[serde(rename = "y", with = "bstr")]
    Y(Vec<u8>),
    /// bit array: number of bits, then 8 bits per byte
    #[serde(rename = "x")]
    X(usize, Vec<u8>),
    #[serde(rename = "l")]
    L(Vec<V>),
    #[serde(rename = "s")]
    S(Vec<(String, V)>),
    #[serde(rename = "c")]
    C(String, Box<V>),
    #[serde(rename = "o")]
    O(Option<Box<V>>),
}
impl V {
    pub fn s(v: &[(&str, V)]) -> V {
        V::S(v.iter().map(|(n, v)| (n.to_string(), v.clone())).collect())
    }
    pub fn y(s: &str) -> V {
        V::Y(s.as_bytes().to_vec())
    }
    pub fn some(v: V) -> V {
        V::O(Some(Box::new(v)))
    }
    pub fn opt(v: Option<V>) -> V {
        V::O(v.map(Box::new))
    }
    pub fn e(n: &str) -> V {
        V::C(n.to_string(), Box::new(V::Null))
    }
    pub fn c(n: &str, v: V) -> V {
        V::C(n.to_string(), Box::new(v))
    }
    pub fn f(&self, n: &str) -> &V {
        match self {
            V::S(f) => &f.iter().find(|x| x.0 == n).unwrap_or_else(|| panic!("no field {n}")).1,
            _ => panic!("field {n} of {self:?}"),
        }
    }
    pub fn set(&mut self, n: &str, v: V) {
        match self {
            V::S(f) => f.iter_mut().find(|x| x.0 == n).unwrap_or_else(|| panic!("no field {n}")).1 = v,
            _ => panic!("set {n}"),
        }
    }
    pub fn fm(&mut self, n: &str) -> &mut V {
        match self {
            V::S(f) => &mut f.iter_mut().find(|x| x.0 == n).unwrap_or_else(|| panic!("no field {n}")).1,
            _ => panic!("fm {n}"),
        }
    }
    pub fn i(&self) -> i64 {
        match self {
            V::I(i) => *i,
            V::B(b) => *b as i64,
            _ => panic!("int of {self:?}"),
        }
    }
    pub fn b(&self) -> bool {
        matches!(self, V::B(true))
    }
    pub fn o(&self) -> Option<&V> {
        match self {
            V::O(o) => o.as_deref(),
            _ => panic!("opt of {self:?}"),
        }
    }
    pub fn oi(&self) -> Option<i64> {
        self.o().map(|v| v.i())
    }
    pub fn bytes(&self) -> &[u8] {
        match self {
            V::Y(b) => b,
            _ => panic!("bytes of {self:?}"),
        }
    }
    /// text; the empty string is what an empty blob decodes to in either form
    pub fn str(&self) -> String {
        String::from_utf8_lossy(self.bytes()).into_owned()
    }
    pub fn l(&self) -> &Vec<V> {
        match self {
            V::L(l) => l,
            _ => panic!("list of {self:?}"),
        }
    }
    pub fn lm(&mut self) -> &mut Vec<V> {
        match self {
            V::L(l) => l,
            _ => panic!("list"),
        }
    }
    pub fn c_name(&self) -> &str {
        match self {
            V::C(n, _) => n,
            _ => panic!("choice of {self:?}"),
        }
    }
    pub fn c_val(&self) -> &V {
        match self {
            V::C(_, v) => v,
            _ => panic!("choice of {self:?}"),
        }
    }
}

// ------------------------------------------------------------------ bit packed
#[derive(Default, Clone)]
pub struct BitW {
    pub buf: Vec<u8>,
    bit: usize,
}
impl BitW {
    pub fn put(&mut self, v: u64, n: usize) {
        let mut left = n;
        while left > 0 {
            if self.bit == 0 {
                self.buf.push(0);
            }
            let k = left.min(8 - self.bit);
            let chunk = ((v >> (left - k)) & ((1u64 << k) - 1)) as u8;
            *self.buf.last_mut().unwrap() |= chunk << self.bit;
            self.bit = (self.bit + k) % 8;
            left -= k;
        }
    }
    pub fn align(&mut self) {
        self.bit = 0;
    }
}
pub struct BitR<'a> {
    pub b: &'a [u8],
    pub pos: usize,
    pub bit: usize,
    /// bit sets are read as one integer each
    pub ints: bool,
}
impl<'a> BitR<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        BitR { b, pos: 0, bit: 0, ints: false }
    }
    pub fn get(&mut self, n: usize) -> Result<u64, String> {
        let mut left = n;
        let mut v = 0u64;
        while left > 0 {
            if self.pos >= self.b.len() {
                return Err("end of data".into());
            }
            let k = left.min(8 - self.bit);
            let c = (self.b[self.pos] >> self.bit) as u64 & ((1u64 << k) - 1);
            v |= c << (left - k);
            self.bit += k;
            if self.bit == 8 {
                self.bit = 0;
                self.pos += 1;
            }
            left -= k;
        }
        Ok(v)
    }
    pub fn align(&mut self) {
        if self.bit != 0 {
            self.bit = 0;
            self.pos += 1;
        }
    }
}

#[derive(Debug)]
pub enum Ty {
    St(Vec<(String, Ty)>),
    Int(i64, usize),
    En(usize, Vec<(u64, String)>),
    Ch(usize, Vec<(u64, String, Ty)>),
    Ref(String),
    Str(usize),
    Arr(usize, Box<Ty>),
    Bits(usize),
    Fix(usize),
    Bool,
    Four,
    Null,
    Opt(Box<Ty>),
    Bytes(usize),
}
pub struct Schema {
    pub t: HashMap<String, Ty>,
    pub base: Option<&'static Schema>,
}
impl Schema {
    pub fn get(&self, n: &str) -> &Ty {
        match self.t.get(n) {
            Some(t) => t,
            None => match self.base {
                Some(b) => b.get(n),
                None => panic!("schema has no {n}"),
            },
        }
    }
}
fn ty(v: &Value) -> Ty {
    match v {
        Value::String(s) => match s.as_str() {
            "bool" => Ty::Bool,
            "fourcc" => Ty::Four,
            "null" => Ty::Null,
            "byte" => Ty::Int(0, 8),
            s => Ty::Ref(s.into()),
        },
        Value::Null => Ty::Null,
        Value::Object(o) => {
            let (k, v) = o.iter().next().unwrap();
            match k.as_str() {
                "opt" => Ty::Opt(Box::new(ty(v))),
                "arr" => Ty::Arr(v[0].as_u64().unwrap() as usize, Box::new(ty(&v[1]))),
                "bytes" => Ty::Bytes(v.as_u64().unwrap() as usize),
                "int" => Ty::Int(v[0].as_i64().unwrap(), v[1].as_u64().unwrap() as usize),
                k => panic!("type {k}"),
            }
        }
        _ => panic!("type {v}"),
    }
}
fn load(s: &str, base: Option<&'static Schema>) -> Schema {
    let j: Value = serde_json::from_str(s).unwrap();
    let mut t = HashMap::new();
    for (n, d) in j.as_object().unwrap() {
        let bits = || d["bits"].as_u64().unwrap() as usize;
        let x = match d["k"].as_str().unwrap() {
            "struct" => Ty::St(
                d["f"].as_array().unwrap().iter().map(|f| (f[0].as_str().unwrap().into(), ty(&f[1]))).collect(),
            ),
            "int" => Ty::Int(d["off"].as_i64().unwrap(), bits()),
            "enum" => {
                let mut v: Vec<(u64, String)> = d["v"]
                    .as_object()
                    .unwrap()
                    .iter()
                    .map(|(k, v)| (k.parse().unwrap(), v.as_str().unwrap().into()))
                    .collect();
                v.sort();
                Ty::En(bits(), v)
            }
            "choice" => {
                let mut v: Vec<(u64, String, Ty)> = d["v"]
                    .as_object()
                    .unwrap()
                    .iter()
                    .map(|(k, v)| (k.parse().unwrap(), v[0].as_str().unwrap().into(), ty(&v[1])))
                    .collect();
                v.sort_by_key(|x| x.0);
                Ty::Ch(bits(), v)
            }
            "ref" => ty(&d["t"]),
            "str" => Ty::Str(bits()),
            "arr" => Ty::Arr(bits(), Box::new(ty(&d["t"]))),
            "bitarr" => Ty::Bits(bits()),
            "blobfix" => Ty::Fix(d["n"].as_u64().unwrap() as usize),
            k => panic!("kind {k}"),
        };
        t.insert(n.clone(), x);
    }
    Schema { t, base }
}
pub fn s87702() -> &'static Schema {
    static S: OnceLock<Schema> = OnceLock::new();
    S.get_or_init(|| load(include_str!("../schema/bit_87702.json"), None))
}
pub fn s75689() -> &'static Schema {
    static S: OnceLock<Schema> = OnceLock::new();
    S.get_or_init(|| load(include_str!("../schema/bit_75689.json"), Some(s87702())))
}
pub fn schema_for(base_build: u32) -> &'static Schema {
    if base_build <= 75689 { s75689() } else { s87702() }
}

impl Schema {
    pub fn enc(&self, w: &mut BitW, t: &Ty, v: &V) {
        match (t, v) {
            (Ty::Ref(n), v) => self.enc(w, self.get(n), v),
            (Ty::St(fs), V::S(vs)) => {
                for (i, (n, ft)) in fs.iter().enumerate() {
                    assert_eq!(n, &vs[i].0);
                    self.enc(w, ft, &vs[i].1);
                }
            }
            (Ty::Int(off, n), V::I(i)) => w.put(i.wrapping_sub(*off) as u64, *n),
            (Ty::En(n, vs), V::C(name, _)) => w.put(vs.iter().find(|x| &x.1 == name).unwrap().0, *n),
            (Ty::Ch(n, vs), V::C(name, x)) => {
                let c = vs.iter().find(|x| &x.1 == name).unwrap_or_else(|| panic!("choice {name}"));
                w.put(c.0, *n);
                self.enc(w, &c.2, x);
            }
            (Ty::Str(n), V::Y(b)) => {
                w.put(b.len() as u64, *n);
                w.align();
                for x in b {
                    w.put(*x as u64, 8);
                }
            }
            (Ty::Bytes(n), V::Y(b)) => {
                w.put(b.len() as u64, *n);
                for x in b {
                    w.put(*x as u64, 8);
                }
            }
            (Ty::Fix(n), V::Y(b)) => {
                assert_eq!(b.len(), *n);
                w.align();
                for x in b {
                    w.put(*x as u64, 8);
                }
            }
            (Ty::Four, V::Y(b)) => {
                for x in b {
                    w.put(*x as u64, 8);
                }
            }
            (Ty::Arr(n, et), V::L(l)) => {
                w.put(l.len() as u64, *n);
                for x in l {
                    self.enc(w, et, x);
                }
            }
            (Ty::Bits(n), V::X(len, b)) => {
                w.put(*len as u64, *n);
                let mut left = *len;
                for x in b {
                    let k = left.min(8);
                    w.put(*x as u64, k);
                    left -= k;
                }
            }
            (Ty::Bool, V::B(b)) => w.put(*b as u64, 1),
            (Ty::Null, V::Null) => {}
            (Ty::Opt(_), V::O(None)) => w.put(0, 1),
            (Ty::Opt(t), V::O(Some(v))) => {
                w.put(1, 1);
                self.enc(w, t, v);
            }
            (t, v) => panic!("cannot encode {v:?} as {t:?}"),
        }
    }
    pub fn dec(&self, r: &mut BitR, t: &Ty) -> Result<V, String> {
        Ok(match t {
            Ty::Ref(n) => self.dec(r, self.get(n))?,
            Ty::St(fs) => {
                let mut o = vec![];
                for (n, ft) in fs {
                    o.push((n.clone(), self.dec(r, ft)?));
                }
                V::S(o)
            }
            Ty::Int(off, n) => V::I((r.get(*n)? as i64).wrapping_add(*off)),
            Ty::En(n, vs) => {
                let k = r.get(*n)?;
                let c = vs.iter().find(|x| x.0 == k).ok_or(format!("unknown variant {k}"))?;
                V::e(&c.1)
            }
            Ty::Ch(n, vs) => {
                let k = r.get(*n)?;
                let c = vs.iter().find(|x| x.0 == k).ok_or(format!("unknown variant {k}"))?;
                V::c(&c.1, self.dec(r, &c.2)?)
            }
            Ty::Str(n) => {
                let k = r.get(*n)?;
                r.align();
                let mut o = vec![];
                for _ in 0..k {
                    o.push(r.get(8)? as u8);
                }
                V::Y(o)
            }
            Ty::Bytes(n) => {
                let k = r.get(*n)?;
                let mut o = vec![];
                for _ in 0..k {
                    o.push(r.get(8)? as u8);
                }
                V::Y(o)
            }
            Ty::Fix(n) => {
                r.align();
                let mut o = vec![];
                for _ in 0..*n {
                    o.push(r.get(8)? as u8);
                }
                V::Y(o)
            }
            Ty::Four => {
                let mut o = vec![];
                for _ in 0..4 {
                    o.push(r.get(8)? as u8);
                }
                V::Y(o)
            }
            Ty::Arr(n, et) => {
                let k = r.get(*n)?;
                let mut o = vec![];
                for _ in 0..k {
                    o.push(self.dec(r, et)?);
                }
                V::L(o)
            }
            Ty::Bits(n) => {
                let len = r.get(*n)? as usize;
                if r.ints && len <= 64 {
                    return Ok(V::I(r.get(len)? as i64));
                }
                let mut o = vec![];
                let mut left = len;
                while left > 0 {
                    let k = left.min(8);
                    o.push(r.get(k)? as u8);
                    left -= k;
                }
                V::X(len, o)
            }
            Ty::Bool => V::B(r.get(1)? != 0),
            Ty::Null => V::Null,
            Ty::Opt(t) => {
                if r.get(1)? != 0 {
                    V::some(self.dec(r, t)?)
                } else {
                    V::O(None)
                }
            }
        })
    }
    /// A random value of this type. `size` bounds lists and strings.
    pub fn gen_v(&self, r: &mut Rng, t: &Ty, size: usize) -> V {
        match t {
            Ty::Ref(n) => self.gen_v(r, self.get(n), size),
            Ty::St(fs) => V::S(fs.iter().map(|(n, t)| (n.clone(), self.gen_v(r, t, size))).collect()),
            Ty::Int(off, n) => {
                let max = if *n >= 63 { i64::MAX as u64 } else { (1u64 << n) - 1 };
                let x = match r.below(8) {
                    0 => 0,
                    1 => max,
                    2 | 3 => r.skewed(max.min(300)),
                    _ => r.skewed(max),
                };
                V::I((x as i64).wrapping_add(*off))
            }
            Ty::En(_, vs) => V::e(&r.pick(vs).1),
            Ty::Ch(_, vs) => {
                let c = r.pick(vs);
                V::c(&c.1, self.gen_v(r, &c.2, size))
            }
            Ty::Str(n) => V::Y(text(r, size.min((1 << n) - 1))),
            Ty::Bytes(n) => {
                let k = r.skewed(size.min((1 << n) - 1) as u64) as usize;
                V::Y(r.bytes(k))
            }
            Ty::Fix(n) => V::Y(r.bytes(*n)),
            Ty::Four => V::Y(r.bytes(4)),
            Ty::Arr(n, et) => {
                let k = r.skewed(size.min((1 << n) - 1) as u64);
                V::L((0..k).map(|_| self.gen_v(r, et, size)).collect())
            }
            Ty::Bits(n) => {
                let len = 1 + r.below((4 * size as u64).min((1 << n) - 1)) as usize;
                let mut b = r.bytes(len.div_ceil(8));
                if len % 8 != 0 {
                    *b.last_mut().unwrap() &= (1u8 << (len % 8)) - 1;
                }
                V::X(len, b)
            }
            Ty::Bool => V::B(r.chance(1, 2)),
            Ty::Null => V::Null,
            Ty::Opt(t) => {
                if r.chance(1, 2) {
                    V::some(self.gen_v(r, t, size))
                } else {
                    V::O(None)
                }
            }
        }
    }
    /// Changes about one in `p` of the parts of a value to anything its encoding can carry.
    pub fn wild(&self, r: &mut Rng, t: &Ty, v: &mut V, p: u64) {
        let hit = r.chance(1, p);
        match (t, v) {
            (Ty::Ref(n), v) => self.wild(r, self.get(n), v, p),
            (Ty::St(fs), V::S(vs)) => {
                for (i, (_, ft)) in fs.iter().enumerate() {
                    self.wild(r, ft, &mut vs[i].1, p);
                }
            }
            (Ty::Ch(_, _), v) if hit && r.chance(1, 4) => *v = self.gen_v(r, t, 12),
            (Ty::Ch(_, vs), V::C(name, x)) => {
                let c = vs.iter().find(|x| &x.1 == name).unwrap();
                self.wild(r, &c.2, x, p);
            }
            (Ty::Arr(n, et), V::L(l)) => {
                if r.chance(1, p.div_ceil(8).min(4)) {
                    wild_list(r, l, (1 << n.min(&10)) - 1, |r| self.gen_v(r, et, 12));
                }
                for x in l {
                    self.wild(r, et, x, p);
                }
            }
            (Ty::Opt(t), V::O(o)) => {
                if hit {
                    *o = match o {
                        Some(_) => None,
                        None => Some(Box::new(self.gen_v(r, t, 12))),
                    };
                }
                if let Some(x) = o {
                    self.wild(r, t, x, p);
                }
            }
            (Ty::Null, _) => {}
            (_, _) if !hit => {}
            (Ty::Int(_, n), V::I(i)) => *i = wild_int(r, *i, *n as u32),
            (Ty::Str(n) | Ty::Bytes(n), V::Y(b)) => wild_bytes(r, b, (1 << n.min(&12)) - 1),
            (Ty::Bits(n), V::X(len, b)) => {
                *len = r.skewed((1 << n.min(&12)) - 1) as usize;
                *b = r.bytes(len.div_ceil(8));
            }
            (_, v) => *v = self.gen_v(r, t, 12),
        }
    }
    pub fn gen_named(&self, r: &mut Rng, n: &str, size: usize) -> V {
        self.gen_v(r, &Ty::Ref(n.into()), size)
    }
}
/// non-empty UTF-8 text of at most `max` bytes
pub fn text(r: &mut Rng, max: usize) -> Vec<u8> {
    let k = 1 + r.skewed(max.saturating_sub(1) as u64) as usize;
    let mut s = String::new();
    while s.len() < k {
        let c = match r.below(12) {
            0 => *r.pick(&['é', 'ß', '漢', '<', '&', '"', '\\', '\n', '\u{1F600}', ' ', '\'', ',']),
            1 => (b'0' + r.below(10) as u8) as char,
            2 => (b'A' + r.below(26) as u8) as char,
            _ => (b'a' + r.below(26) as u8) as char,
        };
        if s.len() + c.len_utf8() > max {
            break;
        }
        s.push(c);
    }
    if s.is_empty() {
        s.push('x');
    }
    s.into_bytes()
}

// ------------------------------------------------------------------ byte aligned, tagged
#[derive(Debug)]
pub enum TT {
    I,
    Y,
    B,
    F,
    O(&'static TT),
    L(&'static TT),
    S(&'static [(u8, &'static str, TT)]),
}
pub fn vlq(o: &mut Vec<u8>, v: i64) {
    let neg = v < 0;
    let mut u = v.unsigned_abs();
    let mut b = ((u & 0x3f) << 1) as u8 | neg as u8;
    u >>= 6;
    loop {
        if u == 0 {
            o.push(b);
            return;
        }
        o.push(b | 0x80);
        b = (u & 0x7f) as u8;
        u >>= 7;
    }
}
pub fn tenc(o: &mut Vec<u8>, t: &TT, v: &V) {
    match (t, v) {
        (TT::I, V::I(i)) => {
            o.push(9);
            vlq(o, *i);
        }
        (TT::Y, V::Y(b)) => {
            o.push(2);
            vlq(o, b.len() as i64);
            o.extend(b);
        }
        (TT::B, V::B(b)) => o.extend([6, *b as u8]),
        (TT::F, V::I(i)) => {
            o.push(7);
            o.extend((*i as u32).to_be_bytes());
        }
        (TT::O(t), V::O(x)) => {
            o.extend([4, x.is_some() as u8]);
            if let Some(x) = x {
                tenc(o, t, x);
            }
        }
        (TT::L(t), V::L(l)) => {
            o.push(0);
            vlq(o, l.len() as i64);
            for x in l {
                tenc(o, t, x);
            }
        }
        (TT::S(fs), V::S(vs)) => {
            o.push(5);
            vlq(o, vs.len() as i64);
            for (n, x) in vs {
                let f = fs.iter().find(|f| f.1 == n).unwrap_or_else(|| panic!("tagged field {n}"));
                vlq(o, f.0 as i64);
                tenc(o, &f.2, x);
            }
        }
        (t, v) => panic!("cannot tag {v:?} as {t:?}"),
    }
}

fn vlq_dec(b: &[u8], p: &mut usize) -> Result<i64, String> {
    let mut get = || {
        let x = *b.get(*p).ok_or("end of data")?;
        *p += 1;
        Ok::<u8, String>(x)
    };
    let mut x = get()?;
    let neg = x & 1 != 0;
    let mut v = ((x >> 1) & 0x3f) as i64;
    let mut sh = 6;
    while x & 0x80 != 0 {
        x = get()?;
        if sh > 56 {
            return Err("long integer".into());
        }
        v |= ((x & 0x7f) as i64) << sh;
        sh += 7;
    }
    Ok(if neg { -v } else { v })
}
fn wild_int(r: &mut Rng, i: i64, bits: u32) -> i64 {
    match r.below(9) {
        0 => 0,
        1 => -1,
        2 => i.wrapping_add(1),
        3 => i.wrapping_sub(1),
        4 => i.wrapping_neg(),
        5 => (1i64 << r.below(63)).wrapping_sub(r.below(3) as i64),
        6 => (1i64 << r.below(63)).wrapping_neg().wrapping_add(r.below(3) as i64),
        7 => *r.pick(&[i64::MAX, i64::MIN, u32::MAX as i64, i32::MIN as i64, i32::MAX as i64, 0x1_0000_0000]),
        _ => (r.next() >> r.below(64)) as i64 & (u64::MAX >> (64 - bits.clamp(1, 64))) as i64,
    }
}
fn wild_bytes(r: &mut Rng, b: &mut Vec<u8>, max: usize) {
    match r.below(6) {
        0 => b.clear(),
        1 => {
            let k = r.skewed(max.min(64) as u64) as usize;
            *b = r.bytes(k);
        }
        2 => *b = vec![*r.pick(&[b'a', 0, 0xff, b'<', b'>', b'/']); r.skewed(max as u64) as usize],
        3 if !b.is_empty() => {
            let k = r.idx(b.len());
            b[k] = *r.pick(&[0, 0xff, 0xc3, b'<', b'>', b'\'', b'/']);
        }
        4 => b.truncate(r.idx(b.len() + 1)),
        _ => {
            let k = r.idx(b.len() + 1);
            b.splice(k..k, r.pick(&["<sp/>", "<", ">", "&lt;", "\0", "\u{1F600}", "<sp/><sp/>"]).bytes());
        }
    }
    b.truncate(max);
}
fn wild_list(r: &mut Rng, l: &mut Vec<V>, max: usize, mut make: impl FnMut(&mut Rng) -> V) {
    match r.below(6) {
        0 => l.clear(),
        1 => l.truncate(r.idx(l.len() + 1)),
        2 => {
            let k = r.skewed(max.min(40) as u64);
            *l = (0..k).map(|_| make(r)).collect();
        }
        3 if !l.is_empty() => {
            let x = l[r.idx(l.len())].clone();
            let k = r.skewed(max as u64 / 2) as usize;
            l.extend(std::iter::repeat_n(x, k));
        }
        4 if l.len() > 1 => l.reverse(),
        _ => l.push(make(r)),
    }
    l.truncate(max);
}
fn tgen(r: &mut Rng, t: &TT) -> V {
    match t {
        TT::I => V::I(wild_int(r, 7, 64)),
        TT::Y => V::Y(text(r, 12)),
        TT::B => V::B(r.chance(1, 2)),
        TT::F => V::I(r.next() as u32 as i64),
        TT::O(t) => V::opt(if r.chance(1, 2) { Some(tgen(r, t)) } else { None }),
        TT::L(t) => V::L((0..r.below(4)).map(|_| tgen(r, t)).collect()),
        TT::S(fs) => V::S(fs.iter().map(|f| (f.1.to_string(), tgen(r, &f.2))).collect()),
    }
}
/// As `Schema::wild`, for the self-describing encoding.
pub fn twild(r: &mut Rng, t: &TT, v: &mut V, p: u64) {
    let hit = r.chance(1, p);
    match (t, v) {
        (TT::S(fs), V::S(vs)) => {
            for (n, x) in vs.iter_mut() {
                let f = fs.iter().find(|f| f.1 == n).unwrap();
                twild(r, &f.2, x, p);
            }
            if hit && r.chance(1, 3) && !vs.is_empty() {
                let k = r.idx(vs.len());
                match r.below(3) {
                    0 => drop(vs.remove(k)),
                    1 => vs.push(vs[k].clone()),
                    _ => vs.swap(0, k),
                }
            }
        }
        (TT::L(t), V::L(l)) => {
            if r.chance(1, p.div_ceil(8).min(4)) {
                wild_list(r, l, 2000, |r| tgen(r, t));
            }
            for x in l {
                twild(r, t, x, p);
            }
        }
        (TT::O(t), V::O(o)) => {
            if hit {
                *o = match o {
                    Some(_) => None,
                    None => Some(Box::new(tgen(r, t))),
                };
            }
            if let Some(x) = o {
                twild(r, t, x, p);
            }
        }
        (_, _) if !hit => {}
        (TT::I | TT::F, V::I(i)) => *i = wild_int(r, *i, 64),
        (TT::Y, V::Y(b)) => wild_bytes(r, b, 4000),
        (t, v) => *v = tgen(r, t),
    }
}
pub fn tdec(b: &[u8], p: &mut usize, t: &TT) -> Result<V, String> {
    let tag = *b.get(*p).ok_or("end of data")?;
    *p += 1;
    let want = match t {
        TT::I => 9,
        TT::Y => 2,
        TT::B => 6,
        TT::F => 7,
        TT::O(_) => 4,
        TT::L(_) => 0,
        TT::S(_) => 5,
    };
    if tag != want {
        return Err(format!("tag {tag} for {t:?}"));
    }
    let take = |p: &mut usize, n: usize| -> Result<&[u8], String> {
        let r = b.get(*p..p.saturating_add(n)).ok_or("end of data")?;
        *p += n;
        Ok(r)
    };
    Ok(match t {
        TT::I => V::I(vlq_dec(b, p)?),
        TT::Y => {
            let n = vlq_dec(b, p)?;
            V::Y(take(p, usize::try_from(n).map_err(|e| e.to_string())?)?.to_vec())
        }
        TT::B => V::B(take(p, 1)?[0] != 0),
        TT::F => V::I(u32::from_be_bytes(take(p, 4)?.try_into().unwrap()) as i64),
        TT::O(t) => {
            if take(p, 1)?[0] != 0 {
                V::some(tdec(b, p, t)?)
            } else {
                V::O(None)
            }
        }
        TT::L(t) => {
            let n = vlq_dec(b, p)?;
            let mut l = vec![];
            for _ in 0..n {
                l.push(tdec(b, p, t)?);
            }
            V::L(l)
        }
        TT::S(fs) => {
            let n = vlq_dec(b, p)?;
            let mut o = vec![];
            for _ in 0..n {
                let k = vlq_dec(b, p)?;
                let f = fs.iter().find(|f| f.0 as i64 == k).ok_or(format!("field {k}"))?;
                o.push((f.1.to_string(), tdec(b, p, &f.2)?));
            }
            V::S(o)
        }
    })
}
/// Decodes one tracker record: (delta, width, name, event)
pub fn tracker_record_dec(b: &[u8], p: &mut usize) -> Result<(u32, u8, String, V), String> {
    if b.get(*p) != Some(&3) {
        return Err("no delta".into());
    }
    *p += 1;
    let w = vlq_dec(b, p)?;
    let V::I(d) = tdec(b, p, &TT::I)? else { unreachable!() };
    let V::I(id) = tdec(b, p, &TT::I)? else { unreachable!() };
    let (n, t) = TRACKER.get(usize::try_from(id).map_err(|e| e.to_string())?).ok_or(format!("event {id}"))?;
    if !(0..4).contains(&w) {
        return Err(format!("width {w}"));
    }
    Ok((u32::try_from(d).map_err(|e| e.to_string())?, w as u8, n.to_string(), tdec(b, p, t)?))
}

const MD5: TT = TT::S(&[(0, "m_data_deprecated", TT::O(&TT::L(&TT::I))), (1, "m_data", TT::Y)]);
pub const HEADER: TT = TT::S(&[
    (0, "m_signature", TT::Y),
    (
        1,
        "m_version",
        TT::S(&[
            (0, "m_flags", TT::I),
            (1, "m_major", TT::I),
            (2, "m_minor", TT::I),
            (3, "m_revision", TT::I),
            (4, "m_build", TT::I),
            (5, "m_base_build", TT::I),
        ]),
    ),
    (2, "m_type", TT::I),
    (3, "m_elapsed_game_loops", TT::I),
    (4, "m_use_scaled_time", TT::B),
    (5, "m_ngdp_root_key", MD5),
    (6, "m_data_build_num", TT::I),
    (7, "m_replay_compatibility_hash", MD5),
    (8, "m_ngdp_root_key_is_dev_data", TT::B),
]);
const PLAYER: TT = TT::S(&[
    (0, "m_name", TT::Y),
    (
        1,
        "m_toon",
        TT::S(&[
            (0, "m_region", TT::I),
            (1, "m_program_id", TT::F),
            (2, "m_realm", TT::I),
            (3, "m_name", TT::Y),
            (4, "m_id", TT::I),
        ]),
    ),
    (2, "m_race", TT::Y),
    (3, "m_color", TT::S(&[(0, "m_a", TT::I), (1, "m_r", TT::I), (2, "m_g", TT::I), (3, "m_b", TT::I)])),
    (4, "m_control", TT::I),
    (5, "m_team_id", TT::I),
    (6, "m_handicap", TT::I),
    (7, "m_observe", TT::I),
    (8, "m_result", TT::I),
    (9, "m_working_set_slot_id", TT::O(&TT::I)),
    (10, "m_hero", TT::Y),
]);
pub const DETAILS: TT = TT::S(&[
    (0, "m_player_list", TT::O(&TT::L(&PLAYER))),
    (1, "m_title", TT::Y),
    (2, "m_difficulty", TT::Y),
    (3, "m_thumbnail", TT::S(&[(0, "m_file", TT::Y)])),
    (4, "m_is_blizzard_map", TT::B),
    (5, "m_time_utc", TT::I),
    (6, "m_time_local_offset", TT::I),
    (7, "m_description", TT::Y),
    (8, "m_image_file_path", TT::Y),
    (9, "m_map_file_name", TT::Y),
    (10, "m_cache_handles", TT::O(&TT::L(&TT::Y))),
    (11, "m_mini_save", TT::B),
    (12, "m_game_speed", TT::I),
    (13, "m_default_difficulty", TT::I),
    (14, "m_mod_paths", TT::O(&TT::L(&TT::Y))),
    (15, "m_campaign_index", TT::I),
    (16, "m_restart_as_transition_map", TT::O(&TT::B)),
    (17, "m_disable_recover_game", TT::B),
]);
const T: TT = TT::I;
pub const TRACKER: [(&str, TT); 10] = [
    ("PlayerStats", TT::S(&[(0, "player_id", T), (1, "stats", STATS)])),
    (
        "UnitBorn",
        TT::S(&[
            (0, "unit_tag_index", T),
            (1, "unit_tag_recycle", T),
            (2, "unit_type_name", TT::Y),
            (3, "control_player_id", T),
            (4, "upkeep_player_id", T),
            (5, "x", T),
            (6, "y", T),
            (7, "creator_unit_tag_index", TT::O(&T)),
            (8, "creator_unit_tag_recycle", TT::O(&T)),
            (9, "creator_ability_name", TT::O(&TT::Y)),
        ]),
    ),
    (
        "UnitDied",
        TT::S(&[
            (0, "unit_tag_index", T),
            (1, "unit_tag_recycle", T),
            (2, "killer_player_id", TT::O(&T)),
            (3, "x", T),
            (4, "y", T),
            (5, "killer_unit_tag_index", TT::O(&T)),
            (6, "killer_unit_tag_recycle", TT::O(&T)),
        ]),
    ),
    (
        "UnitOwnerChange",
        TT::S(&[(0, "unit_tag_index", T), (1, "unit_tag_recycle", T), (2, "control_player_id", T), (3, "upkeep_player_id", T)]),
    ),
    ("UnitTypeChange", TT::S(&[(0, "unit_tag_index", T), (1, "unit_tag_recycle", T), (2, "unit_type_name", TT::Y)])),
    ("Upgrade", TT::S(&[(0, "player_id", T), (1, "upgrade_type_name", TT::Y), (2, "count", T)])),
    (
        "UnitInit",
        TT::S(&[
            (0, "unit_tag_index", T),
            (1, "unit_tag_recycle", T),
            (2, "unit_type_name", TT::Y),
            (3, "control_player_id", T),
            (4, "upkeep_player_id", T),
            (5, "x", T),
            (6, "y", T),
        ]),
    ),
    ("UnitDone", TT::S(&[(0, "unit_tag_index", T), (1, "unit_tag_recycle", T)])),
    ("UnitPosition", TT::S(&[(0, "first_unit_index", T), (1, "items", TT::L(&T))])),
    (
        "PlayerSetup",
        TT::S(&[(0, "player_id", T), (1, "m_type", T), (2, "user_id", TT::O(&T)), (3, "slot_id", TT::O(&T))]),
    ),
];
pub const STAT_NAMES: [&str; 39] = [
    "minerals_current", "vespene_current", "minerals_collection_rate", "vespene_collection_rate", "workers_active_count",
    "minerals_used_in_progress_army", "minerals_used_in_progress_economy", "minerals_used_in_progress_technology",
    "vespene_used_in_progress_army", "vespene_used_in_progress_economy", "vespene_used_in_progress_technology",
    "minerals_used_current_army", "minerals_used_current_economy", "minerals_used_current_technology",
    "vespene_used_current_army", "vespene_used_current_economy", "vespene_used_current_technology",
    "minerals_lost_army", "minerals_lost_economy", "minerals_lost_technology",
    "vespene_lost_army", "vespene_lost_economy", "vespene_lost_technology",
    "minerals_killed_army", "minerals_killed_economy", "minerals_killed_technology",
    "vespene_killed_army", "vespene_killed_economy", "vespene_killed_technology",
    "food_used", "food_made", "minerals_used_active_forces", "vespene_used_active_forces",
    "minerals_friendly_fire_army", "minerals_friendly_fire_economy", "minerals_friendly_fire_technology",
    "vespene_friendly_fire_army", "vespene_friendly_fire_economy", "vespene_friendly_fire_technology",
];
const fn stat(i: u8) -> (u8, &'static str, TT) {
    (i, STAT_NAMES[i as usize], TT::I)
}
const STATS: TT = TT::S(&[
    stat(0), stat(1), stat(2), stat(3), stat(4), stat(5), stat(6), stat(7), stat(8), stat(9), stat(10), stat(11), stat(12),
    stat(13), stat(14), stat(15), stat(16), stat(17), stat(18), stat(19), stat(20), stat(21), stat(22), stat(23), stat(24),
    stat(25), stat(26), stat(27), stat(28), stat(29), stat(30), stat(31), stat(32), stat(33), stat(34), stat(35), stat(36),
    stat(37), stat(38),
]);

/// Tracker record: delta choice (width 0..3), event.
pub fn tracker_record(o: &mut Vec<u8>, width: u8, delta: u32, name: &str, v: &V) {
    o.push(3);
    vlq(o, width as i64);
    o.push(9);
    vlq(o, delta as i64);
    let id = TRACKER.iter().position(|t| t.0 == name).unwrap();
    o.push(9);
    vlq(o, id as i64);
    tenc(o, &TRACKER[id].1, v);
}
/// smallest delta width that holds the value
pub fn min_width(delta: u32) -> u8 {
    match delta {
        0..64 => 0,
        64..16384 => 1,
        16384..4194304 => 2,
        _ => 3,
    }
}
pub fn bit_record(sc: &Schema, o: &mut Vec<u8>, width: u8, delta: u32, user: u8, id_type: &str, name: &str, v: &V) {
    let mut w = BitW::default();
    w.put(width as u64, 2);
    w.put(delta as u64, [6, 14, 22, 32][width as usize]);
    w.put(user as u64, 5);
    sc.enc(&mut w, &Ty::Ref(id_type.into()), &V::c(name, v.clone()));
    w.align();
    o.extend(w.buf);
}
/// Decodes one bit packed record: (delta, width, user, event)
pub fn bit_record_dec(sc: &Schema, r: &mut BitR, id_type: &str) -> Result<(u32, u8, u8, V), String> {
    let w = r.get(2)? as usize;
    let d = r.get([6, 14, 22, 32][w])? as u32;
    let u = r.get(5)? as u8;
    let v = sc.dec(r, &Ty::Ref(id_type.into()))?;
    r.align();
    Ok((d, w as u8, u, v))
}

// ------------------------------------------------------------------ expected public form
fn text_json(b: &[u8]) -> Value {
    Value::String(String::from_utf8_lossy(b).into_owned())
}
/// The public JSON of a tracker event (without what the state adds).
pub fn tracker_json(name: &str, v: &V) -> Value {
    fn go(v: &V, key: &str) -> Value {
        match v {
            V::I(i) if key == "food_used" || key == "food_made" => (i / 4096).into(),
            V::I(i) => (*i).into(),
            V::B(b) => (*b).into(),
            V::Y(b) => text_json(b),
            V::L(l) => l.iter().map(|x| go(x, "")).collect::<Vec<_>>().into(),
            V::O(None) | V::Null => Value::Null,
            V::O(Some(x)) => go(x, key),
            V::S(f) => Value::Object(f.iter().map(|(n, x)| (n.clone(), go(x, n))).collect()),
            _ => panic!("tracker value"),
        }
    }
    let mut o = go(v, "");
    if name == "Upgrade" {
        o["player_name"] = Value::Null;
    }
    serde_json::json!({ name: o })
}
/// Supported game events: wire name -> public name
pub const GAME: [(&str, &str); 21] = [
    ("EDropUser", "DropUser"),
    ("ECameraSave", "CameraSave"),
    ("ECmd", "Cmd"),
    ("ESelectionDelta", "SelectionDelta"),
    ("EControlGroupUpdate", "ControlGroupUpdate"),
    ("ESelectionSyncCheck", "SelectionSyncCheck"),
    ("ETriggerChatMessage", "TriggerChatMessage"),
    ("EUnitClick", "UnitClick"),
    ("EUnitHighlight", "UnitHighlight"),
    ("ETriggerReplySelected", "TriggerReplySelected"),
    ("ECameraUpdate", "CameraUpdate"),
    ("ETriggerMouseClicked", "TriggerMouseClicked"),
    ("ETriggerMouseMoved", "TriggerMouseMoved"),
    ("ETriggerHotkeyPressed", "TriggerHotkeyPressed"),
    ("ETriggerTargetModeUpdate", "TriggerTargetModeUpdate"),
    ("ETriggerKeyPressed", "TriggerKeyPressed"),
    ("ETriggerMouseWheel", "TriggerMouseWheel"),
    ("ETriggerButtonPressed", "TriggerButtonPressed"),
    ("ECommandManagerState", "CommandManagerState"),
    ("ECmdUpdateTargetPoint", "CmdUpdateTargetPoint"),
    ("ECmdUpdateTargetUnit", "CmdUpdateTargetUnit"),
];
pub fn game_public(wire: &str) -> Option<&'static str> {
    GAME.iter().find(|g| g.0 == wire).map(|g| g.1)
}
pub fn plain_json(v: &V) -> Value {
    match v {
        V::I(i) => (*i).into(),
        V::B(b) => (*b).into(),
        V::Y(b) => text_json(b),
        V::X(n, b) => {
            if *n == 0 {
                vec![0u8].into()
            } else {
                b.clone().into()
            }
        }
        V::L(l) => l.iter().map(plain_json).collect::<Vec<_>>().into(),
        V::O(None) | V::Null => Value::Null,
        V::O(Some(x)) => plain_json(x),
        V::C(n, x) => match &**x {
            V::Null => n.clone().into(),
            x => serde_json::json!({ n: plain_json(x) }),
        },
        V::S(f) => Value::Object(f.iter().map(|(n, x)| (n.clone(), plain_json(x))).collect()),
    }
}
/// The public JSON of a supported game event; None if the event has no public form.
pub fn game_json(wire: &str, v: &V) -> Option<Value> {
    let name = game_public(wire)?;
    let mut o = plain_json(v);
    let mask = |m: &mut Value| {
        for k in ["Mask", "OneIndices", "ZeroIndices"] {
            if let Some(x) = m.get(k).cloned() {
                *m = serde_json::json!({ k: { "value": x } });
            }
        }
    };
    match name {
        "DropUser" => {
            let s = o["m_reason"].as_str().unwrap()[1..].to_string();
            o["m_reason"] = s.into();
        }
        "Cmd" => {
            if o["m_abil"].is_object() {
                o["m_abil"]["ability"] = "".into();
            }
        }
        "TriggerTargetModeUpdate" => o["ability"] = "".into(),
        "SelectionDelta" => mask(&mut o["m_delta"]["m_remove_mask"]),
        "ControlGroupUpdate" => mask(&mut o["m_mask"]),
        _ => {}
    }
    Some(serde_json::json!({ name: o }))
}
