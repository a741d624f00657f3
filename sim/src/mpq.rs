//! Archive writer: wraps the five replay streams the way the game does.
use serde::{Deserialize, Serialize};
use std::io::Write;
use std::sync::OnceLock;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct MpqOpts {
    /// 0: stored, 2: zlib
    pub comp: u8,
    pub level: u32,
    pub single: bool,
    pub shift: u16,
    /// free bytes between the user data and the archive header
    pub pad: u16,
    /// archive format 0, 1 (extended header) or 3
    pub format: u16,
    /// rotates the order of the files in the archive
    pub order: u8,
    /// unrelated additional files
    pub extra: u8,
}
impl Default for MpqOpts {
    fn default() -> Self {
        MpqOpts { comp: 0, level: 6, single: true, shift: 5, pad: 0, format: 0, order: 0, extra: 0 }
    }
}
fn table() -> &'static [u32; 0x500] {
    static T: OnceLock<[u32; 0x500]> = OnceLock::new();
    T.get_or_init(|| {
        let mut t = [0u32; 0x500];
        let mut seed: u32 = 0x00100001;
        for i in 0..256 {
            for j in 0..5 {
                seed = (seed * 125 + 3) % 0x2AAAAB;
                let a = (seed & 0xFFFF) << 16;
                seed = (seed * 125 + 3) % 0x2AAAAB;
                t[i + j * 0x100] = a | (seed & 0xFFFF);
            }
        }
        t
    })
}
fn hash(s: &str, kind: u32) -> u32 {
    let t = table();
    let (mut a, mut b) = (0x7FED7FEDu32, 0xEEEEEEEEu32);
    for c in s.to_uppercase().bytes() {
        a = t[((kind << 8) + c as u32) as usize] ^ a.wrapping_add(b);
        b = (c as u32).wrapping_add(a).wrapping_add(b).wrapping_add(b << 5).wrapping_add(3);
    }
    a
}
fn encrypt(data: &mut [u8], key: u32) {
    let t = table();
    let (mut k, mut s) = (key, 0xEEEEEEEEu32);
    for w in data.chunks_exact_mut(4) {
        s = s.wrapping_add(t[0x400 + (k & 0xff) as usize]);
        let plain = u32::from_le_bytes(w.try_into().unwrap());
        w.copy_from_slice(&(plain ^ k.wrapping_add(s)).to_le_bytes());
        k = ((!k << 0x15).wrapping_add(0x11111111)) | (k >> 0x0b);
        s = plain.wrapping_add(s).wrapping_add(s << 5).wrapping_add(3);
    }
}
fn squeeze(d: &[u8], o: &MpqOpts) -> Vec<u8> {
    if o.comp == 2 {
        let mut e = flate2::write::ZlibEncoder::new(vec![2u8], flate2::Compression::new(o.level));
        e.write_all(d).unwrap();
        let c = e.finish().unwrap();
        if c.len() < d.len() {
            return c;
        }
    }
    d.to_vec()
}
pub fn write(header: &[u8], files: &[(&str, Vec<u8>)], o: &MpqOpts) -> Vec<u8> {
    let mut files: Vec<(String, Vec<u8>)> = files.iter().map(|f| (f.0.to_string(), f.1.clone())).collect();
    for i in 0..o.extra {
        files.push((format!("replay.extra{i}"), vec![i; 40 + i as usize * 13]));
    }
    let n = files.len();
    files.rotate_left(o.order as usize % n);
    let mut out = b"MPQ\x1b".to_vec();
    let arch = 16 + header.len() as u32 + o.pad as u32;
    out.extend((header.len() as u32).max(512).to_le_bytes());
    out.extend(arch.to_le_bytes());
    out.extend((header.len() as u32).to_le_bytes());
    out.extend(header);
    out.resize(arch as usize, 0);
    let hsize: u32 = match o.format {
        1 => 44,
        _ => 32,
    };
    let mut body = vec![];
    let mut blocks = vec![];
    for (_, d) in &files {
        let off = hsize + body.len() as u32;
        let mut flags = 0x8000_0000u32;
        let sector = 512usize << o.shift;
        // the archive reader takes a stored sector in the middle of a compressed file for a
        // compressed one, so a file is compressed in all its sectors or in none
        let mut o = o.clone();
        if o.comp == 2 && !o.single && d.chunks(sector).any(|c| squeeze(c, &o).len() >= c.len()) {
            o.comp = 0;
        }
        let o = &o;
        if o.comp == 2 {
            flags |= 0x200;
        }
        let single = o.single || d.is_empty() || d.len() % sector == 0;
        let stored = if single {
            flags |= 0x0100_0000;
            squeeze(d, o)
        } else {
            let parts: Vec<Vec<u8>> = d.chunks(sector).map(|c| squeeze(c, o)).collect();
            let mut s = vec![];
            let mut pos = 4 * (parts.len() as u32 + 1);
            s.extend(pos.to_le_bytes());
            for p in &parts {
                pos += p.len() as u32;
                s.extend(pos.to_le_bytes());
            }
            for p in parts {
                s.extend(p);
            }
            s
        };
        blocks.push([off, stored.len() as u32, d.len() as u32, flags]);
        body.extend(stored);
    }
    let hoff = hsize + body.len() as u32;
    let slots = (n + 1).next_power_of_two().max(8);
    let mut table = vec![[0xffff_ffffu32; 4]; slots];
    for (i, (name, _)) in files.iter().enumerate() {
        let mut k = hash(name, 0) as usize % slots;
        while table[k][3] != 0xffff_ffff {
            k = (k + 1) % slots;
        }
        table[k] = [hash(name, 1), hash(name, 2), 0, i as u32];
    }
    let flat = |t: &[[u32; 4]]| -> Vec<u8> { t.iter().flatten().flat_map(|x| x.to_le_bytes()).collect() };
    let mut h = flat(&table);
    encrypt(&mut h, 0xc3af3770);
    let mut b = flat(&blocks);
    encrypt(&mut b, 0xec83b3a3);
    let boff = hoff + h.len() as u32;
    out.extend(b"MPQ\x1a");
    out.extend(hsize.to_le_bytes());
    out.extend((boff + b.len() as u32).to_le_bytes());
    out.extend(o.format.to_le_bytes());
    out.extend(o.shift.to_le_bytes());
    out.extend(hoff.to_le_bytes());
    out.extend(boff.to_le_bytes());
    out.extend((slots as u32).to_le_bytes());
    out.extend((n as u32).to_le_bytes());
    if o.format == 1 {
        out.extend([0u8; 12]);
    }
    out.extend(body);
    out.extend(h);
    out.extend(b);
    out
}
