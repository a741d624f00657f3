//! Map resource archives (.s2ma): the three parts the library reads, as recorded values.
use crate::codec::text;
use crate::mpq::{self, MpqOpts};
use crate::scenario::Damage;
use crate::sim::fs::bstr;
use crate::sim::rng::Rng;
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct MapSpec {
    pub version: i32,
    pub width: i32,
    pub height: i32,
    pub zeros: usize,
    pub texts: Vec<Txt>,
    /// left, bottom, right, top
    pub bounds: [i32; 4],
    /// bytes behind what is read
    pub behind: usize,
    /// two dimensions, two times
    pub doc: [i32; 4],
    pub module: String,
    pub fields: Vec<(String, Txt)>,
    /// terrain dimensions of the height map
    pub terrain: [i32; 2],
    pub heights: Txt,
    pub extra: usize,
    /// for the bytes without meaning
    pub fill: u64,
    pub mpq: MpqOpts,
    /// part 0 map info, 1 document header, 2 height map
    pub damage: Vec<(u8, Vec<Damage>)>,
    /// parts that are not there
    pub absent: Vec<u8>,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Txt(#[serde(with = "bstr")] pub Vec<u8>);
impl Txt {
    pub fn show(&self) -> String {
        String::from_utf8_lossy(&self.0).into_owned()
    }
}
pub const MODULE: &str = "bnet:Void (Mod)/0.0/999,file:Mods/Void.SC2Mod";
pub const PARTS: [&str; 3] = ["MapInfo", "DocumentHeader", "t3HeightMap"];

impl MapSpec {
    fn filler(&self, part: u64) -> impl FnMut(usize) -> Vec<u8> + use<> {
        let mut r = Rng(self.fill ^ (part << 40));
        move |n| r.bytes(n)
    }
    pub fn part(&self, p: u8) -> Vec<u8> {
        let mut f = self.filler(p as u64);
        let mut o = vec![];
        match p {
            0 => {
                o.extend(b"IpaM");
                o.extend(self.version.to_le_bytes());
                if self.version > 24 {
                    o.extend(f(8));
                }
                o.extend(self.width.to_le_bytes());
                o.extend(self.height.to_le_bytes());
                o.extend(f(8));
                o.extend(vec![0; self.zeros]);
                for (i, t) in self.texts.iter().enumerate() {
                    o.extend(&t.0);
                    o.push(0);
                    if i == 1 {
                        o.extend(f(5));
                    }
                }
                for b in self.bounds {
                    o.extend(b.to_le_bytes());
                }
                o.extend(f(self.behind));
            }
            1 => {
                o.extend(b"H2CS");
                o.extend(f(12));
                o.extend(self.doc[0].to_le_bytes());
                o.extend(self.doc[1].to_le_bytes());
                o.extend(f(4));
                o.extend(self.doc[2].to_le_bytes());
                o.extend(self.doc[3].to_le_bytes());
                o.extend(f(12));
                o.extend(self.module.as_bytes());
                o.push(0);
                o.extend((self.fields.len() as u16).to_le_bytes());
                o.extend([0, 0]);
                for (n, v) in &self.fields {
                    o.extend((n.len() as u16).to_le_bytes());
                    o.extend(n.as_bytes());
                    o.extend(b"SUne");
                    o.extend((v.0.len() as u16).to_le_bytes());
                    o.extend(&v.0);
                }
                o.extend(f(self.behind));
            }
            _ => {
                o.extend(b"HMAP");
                o.extend([0x65, 0, 0, 0]);
                o.extend(self.terrain[0].to_le_bytes());
                o.extend(self.terrain[1].to_le_bytes());
                o.extend(f(16));
                for h in &self.heights.0 {
                    let mut c = f(6);
                    c[4] = *h;
                    o.extend(c);
                }
                o.extend(f(self.extra));
            }
        }
        for (k, ds) in &self.damage {
            if *k == p {
                for d in ds {
                    d.apply(&mut o);
                }
            }
        }
        o
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut u = self.filler(9);
        let k = (self.fill % 40) as usize;
        let parts: Vec<(&str, Vec<u8>)> =
            (0..3u8).filter(|p| !self.absent.contains(p)).map(|p| (PARTS[p as usize], self.part(p))).collect();
        let parts = if parts.is_empty() { vec![("none", vec![1, 2, 3])] } else { parts };
        mpq::write(&u(k), &parts, &self.mpq)
    }
    /// what the readers of the three parts have to give
    pub fn recorded(&self, p: u8) -> Value {
        match p {
            0 => {
                let [l, b, r, t] = self.bounds;
                json!({
                    "file_version": self.version, "cell_width": self.width, "cell_height": self.height,
                    "first_string": self.texts[0].show(), "second_string": self.texts[1].show(),
                    "third_string": self.texts[2].show(), "fourth_string": self.texts[3].show(),
                    "cell_left": l, "cell_bottom": b, "cell_right": r, "cell_top": t,
                    "cell_dim_map": [self.width, self.height],
                    "terrain_dim_map": [self.width + 1, self.height + 1],
                    "cell_dim_playable": [r - l, t - b],
                    "terrain_dim_playable": [r - l + 1, t - b + 1],
                    "cell_left_bottom": [l, b], "cell_right_top": [r, t],
                })
            }
            1 => {
                let last = |n: &str| self.fields.iter().rev().find(|f| f.0 == n).map(|f| f.1.show()).unwrap_or_default();
                json!({
                    "x1": self.doc[0], "y1": self.doc[1], "e1": self.doc[2], "e2": self.doc[3], "mod": self.module,
                    "name": last("DocInfo/Name"), "long": last("DocInfo/DescLong"), "short": last("DocInfo/DescShort"),
                })
            }
            _ => json!({ "width": self.terrain[0], "height": self.terrain[1], "data": self.heights.0 }),
        }
    }
}
fn txt(r: &mut Rng, max: usize) -> Txt {
    let mut t = if r.chance(1, 4) { vec![] } else { text(r, max) };
    if r.chance(1, 12) {
        t.push(0xff);
    }
    Txt(t)
}
pub fn gen_map(r: &mut Rng, big: bool) -> MapSpec {
    let dim = |r: &mut Rng| match r.below(5) {
        0 => 1 + r.below(3) as i32,
        1 if big => 256,
        _ => 1 + r.skewed(if big { 256 } else { 60 }) as i32,
    };
    let (width, height) = (dim(r).min(256), dim(r).min(256));
    let side = |r: &mut Rng, n: i32| {
        let a = r.below(n as u64) as i32;
        let b = if r.chance(1, 4) { n } else { a + 1 + r.below((n - a) as u64) as i32 };
        if r.chance(1, 4) { (0, b) } else { (a, b) }
    };
    let (l, rt) = side(r, width);
    let (b, t) = side(r, height);
    const NAMES: [&str; 7] = [
        "DocInfo/Name", "DocInfo/DescLong", "DocInfo/DescShort", "MapInfo/Player01/Name", "DocInfo/Screenshot01", "Other/Field", "",
    ];
    let mut fields = vec![];
    for _ in 0..r.below(9) {
        let long = r.chance(1, 20);
        let huge = r.chance(1, 60);
        fields.push((r.pick(&NAMES).to_string(), if huge { Txt("wide ".repeat(r.idx(13_107)).into_bytes()) } else { txt(r, if long { 3000 } else { 30 }) }));
    }
    let any = |r: &mut Rng| match r.below(4) {
        0 => *r.pick(&[0, 1, -1, i32::MAX, i32::MIN]),
        _ => r.next() as i32,
    };
    MapSpec {
        version: match r.below(4) {
            0 => *r.pick(&[24, 25, 0, -1, i32::MAX]),
            1 => r.below(24) as i32,
            _ => 25 + r.below(30) as i32,
        },
        width,
        height,
        zeros: r.below(5) as usize,
        texts: vec![Txt(text(r, 9)), txt(r, 9), txt(r, 9), txt(r, 20)],
        bounds: [l, b, rt, t],
        behind: r.skewed(200) as usize,
        doc: [any(r), any(r), any(r), any(r)],
        module: MODULE.into(),
        fields,
        terrain: [width + 1, height + 1],
        heights: Txt((0..(width + 1) * (height + 1)).map(|_| r.below(5) as u8).collect()),
        extra: if r.chance(1, 2) { 0 } else { r.skewed(100) as usize },
        fill: r.next(),
        mpq: crate::world::gen_mpq(r),
        damage: vec![],
        absent: vec![],
    }
}
