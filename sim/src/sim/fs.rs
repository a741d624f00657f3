//! In-memory file system mounted at /sim.
use super::rng::{Rng, hash_bytes};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};

pub type Path = Vec<u8>;

#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    Dir,
    File(Vec<u8>),
    /// dangling or absolute symbolic link
    Link(Vec<u8>),
    /// a named pipe or other special file: exists, is neither a directory nor a regular file
    Special,
}

/// Disk image: absolute path below /sim -> node.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Image(pub BTreeMap<Path, Node>);

impl Image {
    pub fn new() -> Image {
        let mut m = BTreeMap::new();
        m.insert(b"/sim".to_vec(), Node::Dir);
        Image(m)
    }
    pub fn mkdirs(&mut self, p: &[u8]) {
        let mut i = 1;
        while i <= p.len() {
            if i == p.len() || p[i] == b'/' {
                self.0.entry(p[..i].to_vec()).or_insert(Node::Dir);
            }
            i += 1;
        }
    }
    pub fn put(&mut self, p: impl AsRef<[u8]>, n: Node) {
        let p = p.as_ref();
        let cut = p.iter().rposition(|c| *c == b'/').unwrap_or(0);
        if cut > 0 {
            self.mkdirs(&p[..cut]);
        }
        self.0.insert(p.to_vec(), n);
    }
    pub fn file(&mut self, p: impl AsRef<[u8]>, data: Vec<u8>) {
        self.put(p, Node::File(data));
    }
    pub fn get(&self, p: impl AsRef<[u8]>) -> Option<&[u8]> {
        match self.0.get(p.as_ref()) {
            Some(Node::File(d)) => Some(d),
            _ => None,
        }
    }
    pub fn encode(&self) -> Vec<u8> {
        let mut o = vec![];
        for (p, n) in &self.0 {
            o.extend((p.len() as u32).to_le_bytes());
            o.extend(p);
            let (k, d): (u8, &[u8]) = match n {
                Node::Dir => (0, &[]),
                Node::File(d) => (1, d),
                Node::Link(d) => (2, d),
                Node::Special => (3, &[]),
            };
            o.push(k);
            o.extend((d.len() as u32).to_le_bytes());
            o.extend(d);
        }
        o
    }
    pub fn decode(mut b: &[u8]) -> Image {
        let mut m = BTreeMap::new();
        fn take<'a>(b: &mut &'a [u8], n: usize) -> &'a [u8] {
            let (x, y) = b.split_at(n);
            *b = y;
            x
        }
        fn u(b: &mut &[u8]) -> usize {
            u32::from_le_bytes(take(b, 4).try_into().unwrap()) as usize
        }
        while !b.is_empty() {
            let n = u(&mut b);
            let p = take(&mut b, n).to_vec();
            let k = take(&mut b, 1)[0];
            let n = u(&mut b);
            let d = take(&mut b, n).to_vec();
            m.insert(
                p,
                match k {
                    0 => Node::Dir,
                    1 => Node::File(d),
                    2 => Node::Link(d),
                    _ => Node::Special,
                },
            );
        }
        Image(m)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize, PartialOrd, Ord)]
pub enum Op {
    Open,
    Create,
    Read,
    Write,
    Stat,
    OpenDir,
    ReadDir,
    Mkdir,
    Seek,
    Close,
    Other,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Action {
    /// fail with this errno
    Errno(i32),
    /// transfer at most n bytes (n >= 1)
    Short(usize),
    /// transfer n bytes, then fail this same call with errno (short transfer now, errno on the next call)
    Torn(usize, i32),
    /// report this size instead of the real one in stat
    Size(u64),
    /// simulated delay, in nanoseconds; other threads run meanwhile
    Delay(u64),
    /// the entry disappears just before the operation
    Vanish,
    /// the content is replaced just before the operation by its first n bytes
    Shrink(usize),
    /// kill the process at this operation, after n bytes of a write were applied
    Crash(usize),
}

/// One fault: the nth (0-based) operation of this kind on this path; with `nth` None every such
/// operation. An empty path means any path (nth then counts over all paths).
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Fault {
    pub op: Op,
    #[serde(with = "bstr")]
    pub path: Vec<u8>,
    pub nth: Option<u64>,
    pub act: Action,
}

/// Serialises bytes as a string with \xNN escapes.
pub mod bstr {
    use serde::{Deserialize, Deserializer, Serializer};
    pub fn enc(v: &[u8]) -> String {
        let mut s = String::new();
        for &b in v {
            if (0x20..0x7f).contains(&b) && b != b'\\' {
                s.push(b as char)
            } else {
                s.push_str(&format!("\\x{b:02x}"))
            }
        }
        s
    }
    pub fn dec(s: &str) -> Vec<u8> {
        let b = s.as_bytes();
        let mut o = vec![];
        let mut i = 0;
        while i < b.len() {
            if b[i] == b'\\' && i + 3 < b.len() {
                o.push(u8::from_str_radix(&s[i + 2..i + 4], 16).unwrap_or(0));
                i += 4;
            } else {
                o.push(b[i]);
                i += 1;
            }
        }
        o
    }
    pub fn serialize<S: Serializer>(v: &Vec<u8>, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&enc(v))
    }
    pub fn deserialize<'d, D: Deserializer<'d>>(d: D) -> Result<Vec<u8>, D::Error> {
        Ok(dec(&String::deserialize(d)?))
    }
}

/// Random faults: every operation of this kind whose path starts with `prefix` gets the action with
/// this probability (per 100000). The draw is a pure function of (seed, path, op, nth).
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Prob {
    pub op: Op,
    pub prefix: String,
    pub per100k: u32,
    pub act: Action,
}

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct FaultPlan {
    pub seed: u64,
    #[serde(default)]
    pub probs: Vec<Prob>,
    #[serde(default)]
    pub list: Vec<Fault>,
    /// as `list`, but the operation with this number and all later ones fail
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub sticky: Vec<Fault>,
    /// total bytes the disk can take before ENOSPC
    #[serde(default)]
    pub disk_space: Option<u64>,
    /// max simulated descriptors before EMFILE
    #[serde(default)]
    pub max_fds: Option<u64>,
    /// kill the process at the nth file-system operation (0-based), applying `crash_bytes` if it is a write
    #[serde(default)]
    pub crash_at: Option<u64>,
    #[serde(default)]
    pub crash_bytes: u64,
    /// directory listings: true = report DT_UNKNOWN
    #[serde(default)]
    pub dt_unknown: bool,
    /// directory listing order: 0 = sorted, otherwise seed of a shuffle
    #[serde(default)]
    pub dir_order: u64,
}

pub enum Inode {
    Dir,
    File(Vec<u8>),
    Link(Vec<u8>),
    Special,
}

pub struct Fd {
    pub ino: usize,
    pub pos: usize,
    pub append: bool,
    pub write: bool,
    pub read: bool,
    pub path: Path,
    pub pending: Option<i32>,
    pub is_dir: bool,
}

pub struct SimDir {
    pub fd: i32,
    pub path: Path,
    pub entries: Vec<(Vec<u8>, u8, u64)>,
    pub next: usize,
    pub ent: libc::dirent64,
}

#[derive(Default)]
pub struct Fs {
    pub inodes: Vec<Inode>,
    pub names: BTreeMap<Path, usize>,
    pub fds: BTreeMap<i32, Fd>,
    pub plan: FaultPlan,
    pub counts: HashMap<(Path, Op), u64>,
    pub any_counts: HashMap<Op, u64>,
    pub delivered: Vec<Fault>,
    pub ops: u64,
    pub used: u64,
    pub fd_high: u64,
    pub log: Vec<String>,
    pub hash: u64,
    /// paths whose content was completely delivered (a read returned end of file without fault)
    pub opened: u64,
}

pub const FD_BASE: i32 = 1000;

impl Fs {
    pub fn load(img: &Image, plan: FaultPlan) -> Fs {
        let mut fs = Fs { plan, ..Default::default() };
        for (p, n) in &img.0 {
            fs.inodes.push(match n {
                Node::Dir => Inode::Dir,
                Node::File(d) => {
                    fs.used += d.len() as u64;
                    Inode::File(d.clone())
                }
                Node::Link(t) => Inode::Link(t.clone()),
                Node::Special => Inode::Special,
            });
            fs.names.insert(p.clone(), fs.inodes.len() - 1);
        }
        fs
    }
    pub fn dump(&self) -> Image {
        let mut m = BTreeMap::new();
        for (p, i) in &self.names {
            m.insert(
                p.clone(),
                match &self.inodes[*i] {
                    Inode::Dir => Node::Dir,
                    Inode::File(d) => Node::File(d.clone()),
                    Inode::Link(t) => Node::Link(t.clone()),
                    Inode::Special => Node::Special,
                },
            );
        }
        Image(m)
    }
    /// Normalises a path (no symlinks): collapses //, /./ and trailing /
    pub fn norm(p: &[u8]) -> Path {
        let mut out: Vec<&[u8]> = vec![];
        for c in p.split(|c| *c == b'/') {
            if c.is_empty() || c == b"." {
                continue;
            }
            if c == b".." {
                out.pop();
                continue;
            }
            out.push(c);
        }
        let mut r = vec![];
        for c in out {
            r.push(b'/');
            r.extend(c);
        }
        if r.is_empty() {
            r.push(b'/');
        }
        r
    }
    pub fn resolve(&self, p: &[u8], follow: bool) -> Result<(Path, usize), i32> {
        let mut p = Self::norm(p);
        if p == b"/sim" {
            if let Some(i) = self.names.get(&p) {
                return Ok((p, *i));
            }
        }
        for _ in 0..8 {
            match self.names.get(&p) {
                None => {
                    // a prefix that is a file gives ENOTDIR
                    let mut q = p.clone();
                    while let Some(c) = q.iter().rposition(|c| *c == b'/') {
                        q.truncate(c);
                        if let Some(i) = self.names.get(&q) {
                            match &self.inodes[*i] {
                                Inode::Dir => return Err(libc::ENOENT),
                                Inode::Link(t) => {
                                    let mut np = t.clone();
                                    np.extend_from_slice(&p[q.len()..]);
                                    return if follow { self.resolve(&np, follow) } else { Err(libc::ENOENT) };
                                }
                                _ => return Err(libc::ENOTDIR),
                            }
                        }
                    }
                    return Err(libc::ENOENT);
                }
                Some(i) => match &self.inodes[*i] {
                    Inode::Link(t) if follow => p = Self::norm(t),
                    _ => return Ok((p, *i)),
                },
            }
        }
        Err(libc::ELOOP)
    }
    pub fn parent_ok(&self, p: &[u8]) -> Result<(), i32> {
        let c = p.iter().rposition(|c| *c == b'/').unwrap_or(0);
        match self.names.get(&p[..c]) {
            Some(i) => match self.inodes[*i] {
                Inode::Dir => Ok(()),
                _ => Err(libc::ENOTDIR),
            },
            None => Err(libc::ENOENT),
        }
    }
    pub fn alloc_fd(&mut self, f: Fd) -> Result<i32, i32> {
        if let Some(m) = self.plan.max_fds {
            if self.fds.len() as u64 >= m {
                self.note(Fault { op: Op::Open, path: f.path.clone(), nth: None, act: Action::Errno(libc::EMFILE) });
                return Err(libc::EMFILE);
            }
        }
        let mut n = FD_BASE;
        while self.fds.contains_key(&n) {
            n += 1;
        }
        self.fds.insert(n, f);
        self.opened += 1;
        self.fd_high = self.fd_high.max(self.fds.len() as u64);
        Ok(n)
    }
    pub fn note(&mut self, f: Fault) {
        self.hash = hash_bytes(self.hash, format!("F{f:?}").as_bytes());
        if self.delivered.len() < 100_000 {
            self.delivered.push(f);
        }
    }
    pub fn logop(&mut self, s: String) {
        self.hash = hash_bytes(self.hash, s.as_bytes());
        if self.log.len() >= 400 {
            self.log.remove(100);
        }
        self.log.push(s);
    }
    /// Decides the fault for the next operation of this kind on this path.
    pub fn decide(&mut self, op: Op, path: &[u8]) -> Option<Action> {
        let n = {
            let c = self.counts.entry((path.to_vec(), op)).or_insert(0);
            let n = *c;
            *c += 1;
            n
        };
        let any = {
            let c = self.any_counts.entry(op).or_insert(0);
            let n = *c;
            *c += 1;
            n
        };
        let opn = self.ops;
        self.ops += 1;
        if self.plan.crash_at == Some(opn) {
            let k = self.plan.crash_bytes as usize;
            return Some(Action::Crash(k));
        }
        let sticks = self.plan.list.len();
        for (i, f) in self.plan.list.iter().chain(&self.plan.sticky).enumerate() {
            if f.op != op {
                continue;
            }
            let at = |k: u64, n: u64| k == n || (i >= sticks && k < n);
            let hit = if f.path.is_empty() {
                f.nth.is_none_or(|k| at(k, any))
            } else {
                f.path == path && f.nth.is_none_or(|k| at(k, n))
            };
            if hit {
                let f = Fault { op, path: path.to_vec(), nth: Some(n), act: f.act.clone() };
                return Some(f.act);
            }
        }
        for (k, p) in self.plan.probs.iter().enumerate() {
            if p.op != op || !path.starts_with(p.prefix.as_bytes()) {
                continue;
            }
            let mut r = Rng(hash_bytes(self.plan.seed ^ (k as u64) << 32 ^ (op as u64) << 8, path) ^ n.wrapping_mul(0x9e37_79b9));
            r.next();
            if r.below(100_000) < p.per100k as u64 {
                let act = match &p.act {
                    Action::Short(m) => Action::Short(1 + r.skewed(*m as u64) as usize),
                    Action::Torn(m, e) => Action::Torn(r.skewed(*m as u64) as usize, *e),
                    Action::Delay(m) => Action::Delay(1 + r.below(*m)),
                    Action::Shrink(m) => Action::Shrink(r.below(1 + *m as u64) as usize),
                    Action::Size(m) => Action::Size(r.skewed(*m)),
                    a => a.clone(),
                };
                return Some(act);
            }
        }
        None
    }
    pub fn delivered_now(&mut self, op: Op, path: &[u8], act: Action) {
        let n = self.counts.get(&(path.to_vec(), op)).copied().unwrap_or(1) - 1;
        self.note(Fault { op, path: path.to_vec(), nth: Some(n), act });
    }
}
