//! The properties: for each one a generator of scenarios and a check.
use crate::maps::{self, MODULE, gen_map};
use crate::codec::*;
use crate::drive::{Call, P, Props, Tl};
use crate::model::{self, Model, Seen};
use crate::scenario::*;
use crate::sim::fs::{Action, Fault, FaultPlan, Image, Node, Op, Prob};
use crate::sim::rng::{Rng, hash_bytes, mix};
use crate::sim::sched::SchedPlan;
use crate::sim::End;
use crate::tables;
use crate::world::*;
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};

pub struct Def {
    pub id: &'static str,
    /// jobs of the quick tier
    pub quick: u64,
    pub level: &'static str,
    pub rule: &'static str,
    pub make: fn(&mut Rng, u64, bool) -> Scenario,
    pub check: fn(&Scenario, &mut Obs) -> Result<(), Bad>,
}
pub const ASSUMPTIONS: [&str; 4] = [
    "The simulated file system behaves like a POSIX file system within the injected faults; completed writes survive a kill of the process (no power loss).",
    "Generated replays use the wire encodings of the three recorded replays (the encoder reproduces them byte for byte) with the protocol layouts 87702 and 75689.",
    "Threads are interleaved at instrumented code edges, allocations and system calls under sequential consistency; weak-memory reorderings are not explored.",
    "The reference model and the table oracle were written from the property statements; where the recording leaves a choice (ties between the streams) either is accepted.",
];
macro_rules! def {
    ($id:literal, $q:literal, $lv:literal, $mk:ident, $ck:ident, $rule:literal) => {
        Def { id: $id, quick: $q, level: $lv, rule: $rule, make: $mk, check: $ck }
    };
}
pub fn defs() -> Vec<Def> {
    vec![
        def!("S01", 1000, "exploration", mk01, ck01, "Random or recorded replay read through every entry point while reads are short, interrupted, delayed or given wrong size hints, against one undisturbed run. Non-trivial: at least one such disturbance was delivered; distinct by execution trace."),
        def!("S02", 5000, "fault_enumeration", mk02, ck02, "One reading entry point on a random or recorded replay with an error at a random open or read. Non-trivial: the error was delivered; distinct by execution trace."),
        def!("S03", 2400, "exploration", mk03, ck03, "Replay damaged on the archive level or inside one of its parts (cut, bit flips, zeroed, swapped, duplicated blocks, random bytes), or well formed with senseless contents (extreme numbers, lists of any length, any text, lost, repeated, reordered events), read by every entry point, scanned and exported. Non-trivial: the file was read by every entry point; distinct by execution trace."),
        def!("S04", 700, "exploration", mk04, ck04, "Directory of good and bad replays (garbage, damaged, empty, unreadable, vanishing, special), exported and scanned serially or in parallel, against the good ones alone. Non-trivial: at least one good and one bad file; distinct by execution trace."),
        def!("S05", 900, "fault_enumeration", mk05, ck05, "Export while creating or writing a table fails, is cut short, torn or interrupted, or the disk fills up. Non-trivial: at least one fault on an output was delivered; distinct by execution trace."),
        def!("S06", 500, "fault_enumeration", mk06, ck06, "Export killed at a random file operation (also inside a write), over nothing or over an older export, then repeated on the surviving disk. Non-trivial: the kill happened; distinct by execution trace."),
        def!("S07", 1000, "exploration", mk07, ck07, "Export or scan with 1 to 6 workers under a random schedule, against the serial run. Non-trivial: more than one worker thread ran; distinct by interleaving."),
        def!("S08", 900, "exploration", mk08, ck08, "Export of a directory with good, bad and disappearing replays under a random schedule; the identity columns of all tables are compared. Non-trivial: at least two matches with rows in several tables; distinct by execution trace."),
        def!("S09", 2000, "exploration", mk09, ck09, "Directory scan with many players and maps (ties included), repeated with another directory order, worker count, schedule and hash seed, against exact counts. Non-trivial: at least two good replays; distinct by execution trace."),
        def!("S10", 1800, "exploration", mk10, ck10, "Timeline of a random history (or a recorded replay) against the recorded streams. Non-trivial: at least two tracker and two player events; distinct by content of the delivered timeline."),
        def!("S11", 1300, "exploration", mk11, ck11, "Timeline of a random history (or a recorded replay), every unit and user compared with the reference model after every event. Non-trivial: at least three units and one command or group change; distinct by content."),
        def!("S12", 900, "exploration", mk12, ck12, "Timeline with random filters against the unfiltered timeline. Non-trivial: at least one item hidden and one shown; distinct by content."),
        def!("S13", 700, "fault_enumeration", mk13, ck13, "Timeline saved at a random item through a disturbed disk, the process ends, a new one resumes; or cloned at a random item. Non-trivial: items before and after the point; distinct by content."),
        def!("S14", 1200, "exploration", mk14, ck14, "Two to four threads read, step, export and scan the same or different replays under a random schedule, against each call alone. Non-trivial: at least one preemption between the threads; distinct by interleaving."),
        def!("S15", 800, "exploration", mk15, ck15, "Export of random histories, every row of all seven tables against the rows the reference model predicts. Non-trivial: rows in at least four tables; distinct by content."),
        def!("S16", 40000, "fault_enumeration", mk16, ck16, "Random directory tree searched with random limits, listing orders, missing type hints, vanishing entries and failing listings, against a reference walk. Non-trivial: at least two replays, or a fault delivered; distinct by execution trace."),
        def!("S17", 3500, "fault_enumeration", mk17, ck17, "Random balance data written and read back with short, interrupted, failing writes and reads, full disk, and kills. Non-trivial: at least two units; distinct by execution trace."),
        def!("S18", 12000, "fault_enumeration", mk18, ck18, "Random tree of balance XML files loaded in random listing order with disturbed or failing reads and ill-formed files. Non-trivial: at least two units; distinct by execution trace."),
        def!("S19", 14000, "fault_enumeration", mk19, ck19, "One event stream cut at any byte or made undecodable at any record, timeline against the records before the damage. Non-trivial: at least one event before and one behind the damage; distinct by content."),
        def!("S20", 4000, "fault_enumeration", mk20, ck20, "Bulk readers on random, recorded and damaged streams against the recorded records. Non-trivial: at least one record; distinct by content."),
        def!("S21", 14000, "fault_enumeration", mk21, ck21, "Header, set-up and details of random and recorded replays, whole or with one of these parts cut at any byte, read through disturbed storage, against the recorded values. Non-trivial: a value was compared or a damaged part met; distinct by content."),
        def!("S22", 1300, "fault_enumeration", mk22, ck22, "Any entry point over many good and bad files with failing operations and a low descriptor limit; open descriptors during and after each call. Non-trivial: at least three files opened; distinct by execution trace."),
        def!("S23", 700, "exploration", mk23, ck23, "Change hints of random histories against the reported state before and after every event. Non-trivial: at least three units announced; distinct by content."),
        def!("S24", 1600, "fault_enumeration", mk24, ck24, "Export or scan with random files, workers, schedule and faults on any operation; it must come to an end without a crash. Non-trivial: a fault delivered or more than one worker; distinct by execution trace."),
        def!("S25", 40000, "fault_enumeration", mk25, ck25, "Random map archives, whole, with a part cut, damaged, missing or contradictory, read while reads are disturbed or fail, against the recorded values. Non-trivial: a part was compared or a fault or damage met; distinct by execution trace."),
        def!("S26", 3000, "fault_enumeration", mk26, ck26, "Random protocol descriptions turned into decoder modules while reads and writes are disturbed or fail, the disk fills up or the process is killed, over an output that may exist already, against an independent reading of the description. Non-trivial: a module with at least five items, or a fault met; distinct by execution trace."),
    ]
}

// ------------------------------------------------------------------ common parts
const EINTR: i32 = 4;
const EIO: i32 = 5;
pub const ASSETS: [&str; 3] = ["SoloAfk.SC2Replay", "", ""];

fn assets() -> Vec<String> {
    let mut o: Vec<String> = std::fs::read_dir("/repo/assets")
        .map(|d| d.filter_map(|e| e.ok()).map(|e| e.file_name().to_string_lossy().into_owned()).collect())
        .unwrap_or_default();
    o.retain(|n| n.ends_with(".SC2Replay"));
    o.sort();
    o
}
/// Decodes a recorded replay with the harness's own decoder.
pub fn decode(bytes: &[u8]) -> Option<Match> {
    let (_, mpq) = nom_mpq::parser::parse(bytes).ok()?;
    let mut at = 0;
    let header = tdec(&mpq.user_data.as_ref()?.content, &mut at, &HEADER).ok()?;
    let sec = |n: &str| mpq.read_mpq_file_sector(n, false, bytes).ok().map(|x| x.1);
    let d = sec("replay.details")?;
    let details = tdec(&d, &mut 0, &DETAILS).ok()?;
    let d = sec("replay.initData")?;
    let init = s87702().dec(&mut BitR::new(&d), &Ty::Ref("ReplaySInitData".into())).ok()?;
    let mut m = Match { header, details, init, tracker: vec![], game: vec![], msgs: vec![], mpq: Default::default() };
    let sc = schema_for(m.version());
    for (s, name, id) in [(1, "replay.game.events", "GameEEventId"), (2, "replay.message.events", "GameEMessageId")] {
        let d = sec(name)?;
        let mut r = BitR::new(&d);
        while r.pos < d.len() {
            let (dl, w, u, V::C(n, v)) = bit_record_dec(sc, &mut r, id).ok()? else { return None };
            let e = Ev { d: dl, w, u, n, v: *v };
            if s == 1 { m.game.push(e) } else { m.msgs.push(e) }
        }
    }
    let d = sec("replay.tracker.events")?;
    let mut at = 0;
    while at < d.len() {
        let (dl, w, n, v) = tracker_record_dec(&d, &mut at).ok()?;
        m.tracker.push(Ev { d: dl, w, u: 0, n, v });
    }
    Some(m)
}
fn match_of(k: &Kind) -> Option<Match> {
    match k {
        Kind::Match(m) | Kind::Cut(m, _) | Kind::Streams(m, _) => Some((**m).clone()),
        Kind::Asset(_) => decode(&k.bytes()),
        _ => None,
    }
}
fn cfg(r: &mut Rng, thorough: bool) -> Cfg {
    let max = if thorough { 400 } else { 160 };
    Cfg {
        events: 2 + r.skewed(max) as usize + if r.chance(1, 2) { r.idx(60) } else { 0 },
        msgs: r.idx(6),
        game_pct: *r.pick(&[10, 30, 50, 50, 50, 70, 90]),
        sorted_ties: r.chance(1, 4),
        noise_pct: *r.pick(&[0, 10, 10, 40]),
        big_loops: r.chance(1, 6),
    }
}
fn hist(r: &mut Rng, thorough: bool) -> Match {
    let c = cfg(r, thorough);
    gen_match(r, &c)
}
fn small(r: &mut Rng, events: usize, names: &[String], title: &str, version: u32) -> Match {
    let c = Cfg { events, msgs: r.idx(3), game_pct: *r.pick(&[20, 50, 70]), sorted_ties: false, noise_pct: 5, big_loops: false };
    for _ in 0..20 {
        let m = gen_match_with(r, &c, version, names, title);
        if !model::joined(&m).is_empty() {
            return m;
        }
    }
    gen_match_with(r, &c, version, names, title)
}
fn version(r: &mut Rng) -> u32 {
    if r.chance(1, 4) { *r.pick(&VERSIONS) } else { 87702 }
}
/// Disturbances a reader must not notice.
fn mild_reads(r: &mut Rng, f: &mut FaultPlan, big: bool) {
    f.seed = r.next();
    let pre = "/sim".to_string();
    let rate = |r: &mut Rng| *r.pick(&[500u32, 5_000, 20_000, 60_000]);
    let lo = if big { 512 } else { 1 };
    if r.chance(2, 3) {
        let m = *r.pick(&[lo, lo * 7, lo * 100, 4096, 60_000]);
        f.probs.push(Prob { op: Op::Read, prefix: pre.clone(), per100k: rate(r), act: Action::Short(m) });
    }
    if r.chance(1, 2) {
        f.probs.push(Prob { op: Op::Read, prefix: pre.clone(), per100k: rate(r).min(20_000), act: Action::Errno(EINTR) });
    }
    if r.chance(1, 4) {
        f.probs.push(Prob { op: Op::Open, prefix: pre.clone(), per100k: rate(r).min(30_000), act: Action::Errno(EINTR) });
    }
    if r.chance(1, 4) {
        f.probs.push(Prob { op: Op::Read, prefix: pre, per100k: rate(r), act: Action::Delay(5_000_000_000) });
    }
}
fn wrong_sizes(r: &mut Rng, f: &mut FaultPlan) {
    let act = if r.chance(1, 3) { Action::Errno(*r.pick(&[EIO, 13, 2, 38])) } else { Action::Size(*r.pick(&[0u64, 16, 5000, 4_000_000])) };
    f.probs.push(Prob { op: Op::Stat, prefix: "/sim".into(), per100k: *r.pick(&[30_000u32, 100_000]), act });
}
fn some_mild(r: &mut Rng, sc: &mut Scenario, big: bool) {
    if r.chance(1, 2) {
        mild_reads(r, &mut sc.faults, big);
    }
}
fn rd(path: &str) -> P {
    P::new(path)
}
fn tl(path: &str, snap: bool) -> Tl {
    Tl { path: rd(path), filters: Value::Null, by_name: None, snap, max: None, save: None, clone_at: None, resume: None, digest: false, with_balance: true, dbg: false }
}
fn recorded(sc: &Scenario) -> bool {
    sc.files.iter().any(|f| matches!(f.kind, Kind::Asset(_)))
}
/// one replay, random or (rarely) recorded
fn one_replay(r: &mut Rng, thorough: bool, asset_in: u64) -> (FileSpec, bool) {
    if asset_in > 0 && r.chance(1, asset_in) {
        let a = assets();
        if !a.is_empty() {
            return (FileSpec::new("/sim/a.SC2Replay", Kind::Asset(r.pick(&a).clone())), true);
        }
    }
    (FileSpec::new("/sim/a.SC2Replay", Kind::Match(Box::new(hist(r, thorough)))), false)
}
fn with_balance(r: &mut Rng, sc: &mut Scenario) {
    let mut vs: Vec<u32> = sc.files.iter().filter_map(|f| f.kind.the_match().map(|m| m.version())).collect();
    vs.push(*r.pick(&VERSIONS));
    if sc.files.iter().any(|f| matches!(f.kind, Kind::Asset(_))) {
        vs.push(87702);
        vs.push(89720);
    }
    vs.sort();
    vs.dedup();
    let per = *r.pick(&[0usize, 4, 12, 30]);
    sc.balance = gen_balance(r, &vs, per, false);
}
fn content(v: &Value) -> u64 {
    hash_bytes(11, v.to_string().as_bytes())
}
fn hard(f: &Fault) -> bool {
    match &f.act {
        Action::Errno(e) => *e != EINTR,
        Action::Torn(..) | Action::Vanish => true,
        _ => false,
    }
}
fn need<'a>(out: &'a Out, i: usize, what: &str) -> Result<&'a Value, Bad> {
    match out.ok(i) {
        Some(v) => Ok(v),
        None => bad(
            format!("{what} fails"),
            format!("{what}: {}", short(out.res.get(i).unwrap_or(&Value::Null))),
        ),
    }
}
/// schedule, workers
fn schedule(r: &mut Rng, sc: &mut Scenario) {
    sc.workers = *r.pick(&[1usize, 2, 2, 3, 3, 4, 6]);
    sc.sched = SchedPlan::draw(r);
}
fn calm(sc: &Scenario) -> How {
    let mut h = How::clean(sc);
    h.faults.dir_order = sc.faults.dir_order;
    h
}

// ------------------------------------------------------------------ directories
struct DirCfg {
    good: usize,
    bad: usize,
    events: u64,
    odd_names: bool,
    /// no nearly empty replays
    full: bool,
}
const ROOT: &str = "/sim/r";
const OUTD: &str = "/sim/out";
fn place(r: &mut Rng, used: &mut BTreeSet<Vec<u8>>, odd: bool) -> Vec<u8> {
    loop {
        let mut p = ROOT.to_string();
        for _ in 0..*r.pick(&[0usize, 0, 0, 1, 1, 2, 3]) {
            p.push('/');
            p.push_str(r.pick(&["d", "e e", "ü", "x.SC2Replay.d", "2024"]));
        }
        p.push_str(&format!("/{}{}", r.pick(&["a", "game", "Ley Lines (", "ö", "z.y", "_"]), r.below(40)));
        let mut b = p.into_bytes();
        if odd && r.chance(1, 8) {
            b.push(*r.pick(&[0xff, 0xc3, 0x80]));
        }
        b.extend(b".SC2Replay");
        if used.insert(b.clone()) {
            return b;
        }
    }
}
fn gen_damage(r: &mut Rng, n: usize) -> Damage {
    let n = n.max(1);
    match r.below(8) {
        0 => Damage::Trunc(if r.chance(1, 3) { r.skewed(200) as usize } else { r.idx(n) }),
        1 | 2 => Damage::Flip(r.idx(n), r.below(8) as u8),
        3 => Damage::Zero(r.idx(n), 1 + r.skewed(2000) as usize),
        4 => Damage::Swap(r.idx(n), r.idx(n), 1 + r.skewed(600) as usize),
        5 => Damage::Dup(r.idx(n), 1 + r.skewed(600) as usize),
        6 => {
            let k = *r.pick(&[1usize, 2, 4, 8]);
            let b = if r.chance(1, 2) { vec![*r.pick(&[0u8, 0xff, 0x7f, 0x80, 1]); k] } else { r.bytes(k) };
            Damage::Set(r.idx(n), b)
        }
        _ => Damage::Flip(r.idx(n.min(600)), r.below(8) as u8),
    }
}
fn damages(r: &mut Rng, n: usize) -> Vec<Damage> {
    (0..1 + r.skewed(4)).map(|_| gen_damage(r, n)).collect()
}
fn part_damages(r: &mut Rng, m: &Match) -> Vec<(u8, Vec<Damage>)> {
    use std::cell::RefCell;
    let lens = RefCell::new([0usize; 6]);
    m.bytes_with(|i, b| lens.borrow_mut()[i as usize] = b.len());
    let lens = lens.into_inner();
    let mut o = vec![];
    for _ in 0..1 + r.idx(2) {
        let k = r.idx(6);
        o.push((k as u8, damages(r, lens[k])));
    }
    o
}
fn bad_kind(r: &mut Rng, src: &Match) -> Kind {
    match r.below(10) {
        0 => {
            let n = r.skewed(900) as usize;
            Kind::Raw(r.bytes(n))
        }
        1 => Kind::Raw(vec![]),
        2 => Kind::Text("MPQ\x1b this is not an archive".repeat(1 + r.idx(20))),
        3 => Kind::Special,
        4 => Kind::Link(b"/sim/nowhere.SC2Replay".to_vec()),
        5 => Kind::Raw(b"MPQ\x1b".to_vec()),
        6 | 7 => {
            let n = src.bytes(None).len();
            Kind::Damaged(Box::new(Kind::Match(Box::new(src.clone()))), damages(r, n))
        }
        8 => Kind::Streams(Box::new(src.clone()), part_damages(r, src)),
        _ => {
            let n = src.bytes(None).len();
            Kind::Damaged(Box::new(Kind::Match(Box::new(src.clone()))), vec![Damage::Trunc(r.idx(n))])
        }
    }
}
fn pool(r: &mut Rng) -> (Vec<String>, Vec<String>) {
    let n = 3 + r.idx(14);
    let p = (0..n).map(|i| format!("{}{}", r.pick(&["Ann", "Böb", "A.I. ", "x"]), i)).collect();
    let n = 1 + r.idx(14);
    let t = (0..n).map(|i| format!("{} {}", r.pick(&["Oxide", "Lost Temple", "Ümläut"]), i)).collect();
    (p, t)
}
/// Good and bad replays under /sim/r, and an output directory.
fn gen_dir(r: &mut Rng, c: &DirCfg) -> Vec<FileSpec> {
    let mut used = BTreeSet::new();
    let mut o = vec![];
    let (players, titles) = pool(r);
    let mut srcs: Vec<Match> = vec![];
    for _ in 0..c.good {
        let mut ps = players.clone();
        r.shuffle(&mut ps);
        ps.truncate(1 + r.idx(5.min(ps.len())));
        let ev = if c.full { c.events / 2 + r.below(c.events / 2 + 1) } else { r.skewed(c.events + 1) } as usize;
        let v = version(r);
        let t = r.pick(&titles).clone();
        let m = small(r, ev, &ps, &t, v);
        let path = place(r, &mut used, false);
        if r.chance(1, 10) && !srcs.is_empty() {
            // the same content under another name
            let m = r.pick(&srcs).clone();
            o.push(FileSpec::new(path, Kind::Match(Box::new(m))));
            continue;
        }
        srcs.push(m.clone());
        o.push(FileSpec::new(path, Kind::Match(Box::new(m))));
    }
    for _ in 0..c.bad {
        if srcs.is_empty() {
            let t = titles[0].clone();
            srcs.push(small(r, 5, &players[..1], &t, 87702));
        }
        let m = r.pick(&srcs).clone();
        let k = bad_kind(r, &m);
        o.push(FileSpec::bad(place(r, &mut used, c.odd_names), k));
    }
    r.shuffle(&mut o);
    o
}
fn dirs(sc: &mut Scenario) {
    sc.files.push(FileSpec::new(ROOT, Kind::Dir));
    sc.files.push(FileSpec::new(OUTD, Kind::Dir));
}
fn is_file(f: &FileSpec) -> bool {
    !matches!(f.kind, Kind::Dir)
}
fn export(serial: bool) -> Call {
    Call::Export { src: rd(ROOT), out: rd(OUTD), props: Props::default(), serial }
}
fn export_p(sc: &Scenario, serial: bool) -> Call {
    let props = serde_json::from_value(sc.p["props"].clone()).unwrap_or_default();
    Call::Export { src: rd(ROOT), out: rd(OUTD), props, serial }
}
/// One table, written by its own function.
fn one_table(t: &str, serial: bool) -> Call {
    let file = if t == "once" { "details" } else { t };
    Call::Table { src: rd(ROOT), out: rd(&table_path(file)), table: t.into(), serial }
}
fn stats(serial: bool) -> Call {
    Call::DirStats { path: rd(ROOT), serial }
}
type Tables = BTreeMap<&'static str, Vec<Value>>;
fn table_path(t: &str) -> String {
    format!("{OUTD}/{t}.arrow")
}
/// All seven tables, or what is wrong with one.
fn all_tables(img: &Image) -> Result<Tables, (String, String)> {
    some_tables(img, None)
}
fn some_tables(img: &Image, only: Option<&str>) -> Result<Tables, (String, String)> {
    let mut o = Tables::new();
    for t in tables::TABLES {
        if only.is_some_and(|x| x != t) {
            continue;
        }
        match img.get(table_path(t)) {
            None => return Err((format!("{t} absent"), format!("table {t} does not exist"))),
            Some(b) => match tables::read(b) {
                Ok(r) => {
                    o.insert(t, r);
                }
                Err(e) => return Err((format!("{t} incomplete"), format!("table {t} is not a complete table file: {e}"))),
            },
        }
    }
    Ok(o)
}
fn disk(o: &Out) -> Result<&Image, Bad> {
    match &o.run.disk {
        Some(d) => Ok(d),
        None => harness("no disk"),
    }
}
fn tables_of(o: &Out) -> Result<Tables, Bad> {
    match all_tables(disk(o)?) {
        Ok(t) => Ok(t),
        Err((s, t)) => bad(format!("export: {s}"), t),
    }
}
/// Same rows match by match, identifiers included.
fn same_rows(want: &[Value], got: &[Value]) -> Option<String> {
    let (a, b) = (tables::by_match(want), tables::by_match(got));
    for (k, w) in &a {
        match b.get(k) {
            None => return Some(format!("the {} rows of match {k} are missing", w.len())),
            Some(g) => {
                if let Some(d) = diff(&json!(w), &json!(g)) {
                    return Some(format!("rows of match {k} differ: {d}"));
                }
            }
        }
    }
    b.keys().find(|k| !a.contains_key(k)).map(|k| format!("rows of match {k} should not be there"))
}
fn same_tables(want: &Tables, got: &Tables) -> Option<(String, String)> {
    for t in tables::TABLES {
        let Some(g) = got.get(t) else { continue };
        if let Some(d) = same_rows(&want[t], g) {
            return Some((t.to_string(), format!("table {t}: {d}")));
        }
    }
    None
}
/// identifier -> file, from the details table
fn id_files(t: &Tables) -> BTreeMap<u64, String> {
    t["details"]
        .iter()
        .filter_map(|r| Some((r["ext_fs_id"].as_u64()?, r["ext_fs_file_name"].as_str()?.to_string())))
        .collect()
}
/// Rows of one file in all tables, without the identifier.
fn rows_of_file(t: &Tables, file: &str) -> Option<BTreeMap<&'static str, Vec<Value>>> {
    let id = id_files(t).into_iter().find(|(_, f)| f == file)?.0;
    Some(
        t.iter()
            .map(|(n, rows)| {
                (*n, rows.iter().filter(|r| r["ext_fs_id"].as_u64() == Some(id)).map(tables::no_id).collect::<Vec<_>>())
            })
            .collect(),
    )
}
/// players and maps of one replay, as the scan counts them
fn ranks(m: &Match) -> (Vec<String>, String) {
    let l = m.details.f("m_player_list").o().map(|l| l.l().clone()).unwrap_or_default();
    (l.iter().filter(|p| p.f("m_observe").i() == 0).map(|p| p.f("m_name").str()).collect(), m.details.f("m_title").str())
}
fn check_top(what: &str, list: &Value, counts: &BTreeMap<String, u64>) -> Result<(), Bad> {
    let got: Vec<(String, u64)> = list
        .as_array()
        .into_iter()
        .flatten()
        .map(|e| (e[0].as_str().unwrap_or("").to_string(), e[1].as_u64().unwrap_or(0)))
        .collect();
    let mut all: Vec<u64> = counts.values().copied().collect();
    all.sort_by(|a, b| b.cmp(a));
    all.truncate(10);
    let names: BTreeSet<&String> = got.iter().map(|g| &g.0).collect();
    if names.len() != got.len() {
        return bad(format!("{what} twice"), format!("{what} are listed twice: {got:?}"));
    }
    for (n, c) in &got {
        if counts.get(n) != Some(c) {
            return bad(format!("{what} count"), format!("{n} is counted {c} times instead of {:?}", counts.get(n)));
        }
    }
    let g: Vec<u64> = got.iter().map(|g| g.1).collect();
    if g != all {
        return bad(format!("{what} ranking"), format!("{what}: listed counts {g:?}, the top ten are {all:?}"));
    }
    Ok(())
}
fn add_ranks(list: &Value, to: &mut BTreeMap<String, u64>) {
    for e in list.as_array().into_iter().flatten() {
        *to.entry(e[0].as_str().unwrap_or("").to_string()).or_default() += e[1].as_u64().unwrap_or(0);
    }
}

// ------------------------------------------------------------------ S01
fn mk01(r: &mut Rng, i: u64, th: bool) -> Scenario {
    let mut sc = Scenario::new("S01", 0);
    let (f, big) = one_replay(r, th, if i < 3 { 1 } else { 60 });
    sc.files.push(f);
    mild_reads(r, &mut sc.faults, big);
    if r.chance(1, 2) {
        wrong_sizes(r, &mut sc.faults);
    }
    if r.chance(1, 3) {
        schedule(r, &mut sc);
    }
    with_balance(r, &mut sc);
    sc
}
fn ck01(sc: &Scenario, o: &mut Obs) -> Result<(), Bad> {
    let p = "/sim/a.SC2Replay";
    let mut t = tl(p, true);
    t.digest = recorded(sc);
    let calls = [Call::ReadAll(rd(p)), Call::Timeline(t)];
    let img = sc.image();
    let a = go(sc, o, &How::clean(sc), &img, &calls)?;
    a.sound()?;
    let all = need(&a, 0, "undisturbed read")?;
    for (k, x) in all.as_array().into_iter().flatten().enumerate() {
        // a stream without records may be reported as an error
        if x.get("ok").is_none() && k < 4 {
            return bad("unreadable", format!("reader {k} fails on a well-formed replay: {}", short(x)));
        }
    }
    need(&a, 1, "undisturbed timeline")?;
    let b = go(sc, o, &How::dirty(sc), &sc.image(), &calls)?;
    b.sound()?;
    if !b.run.st.delivered.is_empty() {
        o.nontrivial.insert(b.run.st.trace);
    }
    for i in 0..calls.len() {
        if let Some(d) = diff(&strip(&a.res[i]), &strip(&b.res[i])) {
            return bad(format!("differs {i}"), format!("call {i} differs when storage delivers differently: {d}"));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ S02
const ERRS: [i32; 8] = [EIO, 13, 2, 24, 23, 12, 116, 110];
fn mk02(r: &mut Rng, i: u64, th: bool) -> Scenario {
    let mut sc = Scenario::new("S02", 0);
    let (f, big) = one_replay(r, th, if i < 8 { 2 } else { 80 });
    sc.files.push(f);
    let p = rd("/sim/a.SC2Replay");
    let c = match r.below(9) {
        0 => Call::Header(p),
        1 => Call::Init(p, 0),
        2 => Call::Details(p),
        3 => Call::Lobby(p),
        4 => Call::Tracker(p),
        5 => Call::Game(p),
        6 => Call::Msgs(p),
        _ => Call::Timeline(tl("/sim/a.SC2Replay", false)),
    };
    sc.calls = vec![c];
    // reads in small pieces, so that errors can fall in the middle
    sc.faults.seed = r.next();
    let lo = if big { 20_000 } else { 60 };
    if r.chance(3, 4) {
        sc.faults.probs.push(Prob { op: Op::Read, prefix: "/sim".into(), per100k: 100_000, act: Action::Short(lo * *r.pick(&[1usize, 4, 40])) });
    }
    let (op, nth) = if r.chance(1, 4) { (Op::Open, r.below(3)) } else { (Op::Read, r.skewed(80)) };
    let act = if op == Op::Open && r.chance(1, 4) { Action::Vanish } else { Action::Errno(*r.pick(&ERRS)) };
    let f = Fault { op, path: vec![], nth: Some(nth), act };
    if r.chance(1, 3) {
        sc.faults.sticky.push(f);
    } else {
        sc.faults.list.push(f);
    }
    if r.chance(1, 4) {
        wrong_sizes(r, &mut sc.faults);
    }
    sc
}
fn ck02(sc: &Scenario, o: &mut Obs) -> Result<(), Bad> {
    let img = sc.image();
    let b = go(sc, o, &How::dirty(sc), &img, &sc.calls)?;
    b.sound()?;
    let hit = b.run.st.delivered.iter().any(|f| hard(f) && matches!(f.op, Op::Open | Op::Read));
    o.hit(if hit { "error delivered" } else { "error not reached" });
    for (i, c) in sc.calls.iter().enumerate() {
        let name = format!("{c:?}").chars().take_while(|c| c.is_alphanumeric()).collect::<String>();
        if hit {
            o.nontrivial.insert(b.run.st.trace);
            if let Some(v) = b.ok(i) {
                return bad(format!("{name} swallows"), format!("{name} returned a value although a read failed: {}", short(v)));
            }
        } else {
            let a = go(sc, o, &How::clean(sc), &img, &sc.calls)?;
            if let Some(d) = diff(&strip(&a.res[i]), &strip(&b.res[i])) {
                return bad(format!("{name} differs"), format!("{name} differs without an error: {d}"));
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ S03
fn mk03(r: &mut Rng, _i: u64, th: bool) -> Scenario {
    let mut sc = Scenario::new("S03", 0);
    let mut m = hist(r, th);
    let kind = match r.below(16) {
        10.. => {
            let p = *r.pick(&[3, 8, 25, 80]);
            if r.chance(1, 2) {
                let c = Cfg { noise_pct: 70, ..cfg(r, th) };
                m = gen_match(r, &c);
            }
            m.wild(r, p);
            Kind::Match(Box::new(m))
        }
        0 => {
            let a = assets();
            if a.is_empty() || !r.chance(1, 4) {
                let n = r.skewed(3000) as usize;
                let mut b = r.bytes(n);
                if r.chance(1, 2) && b.len() > 8 {
                    b[..4].copy_from_slice(r.pick(&[b"MPQ\x1b", b"MPQ\x1a"]).as_slice());
                }
                Kind::Raw(b)
            } else {
                let k = Kind::Asset(r.pick(&a).clone());
                let n = k.bytes().len();
                Kind::Damaged(Box::new(k), damages(r, n))
            }
        }
        1..=3 => {
            let n = m.bytes(None).len();
            Kind::Damaged(Box::new(Kind::Match(Box::new(m))), damages(r, n))
        }
        4 => {
            // headers and tables of the archive
            let n = m.bytes(None).len();
            let mut d = damages(r, n.min(200));
            if r.chance(1, 2) {
                d = vec![Damage::Set(r.idx(n), r.pick(&[[0xffu8; 4], [0, 0, 0, 0x80], [0xff, 0xff, 0xff, 0x7f], [0, 0, 0, 0x10]]).to_vec())];
            }
            Kind::Damaged(Box::new(Kind::Match(Box::new(m))), d)
        }
        _ => {
            let d = part_damages(r, &m);
            Kind::Streams(Box::new(m), d)
        }
    };
    sc.files.push(FileSpec::new("/sim/r/a.SC2Replay", kind));
    let good = small(r, 6, &["Good".to_string()], "T", 87702);
    sc.files.push(FileSpec::new("/sim/r/b.SC2Replay", Kind::Match(Box::new(good))));
    dirs(&mut sc);
    sc.p = json!({"batch": r.chance(1, 2)});
    with_balance(r, &mut sc);
    sc
}
fn ck03(sc: &Scenario, o: &mut Obs) -> Result<(), Bad> {
    let p = "/sim/r/a.SC2Replay";
    let mut t = tl(p, r_bool(sc));
    t.max = Some(200_000);
    let mut calls = vec![Call::ReadAll(rd(p)), Call::Timeline(t)];
    if sc.p["batch"] == json!(true) {
        calls.push(export(true));
        calls.push(stats(true));
    }
    let mut h = How::clean(sc);
    h.mem_cap = 512 << 20;
    let b = go(sc, o, &h, &sc.image(), &calls)?;
    o.nontrivial.insert(b.run.st.trace);
    for r in &b.res {
        o.hit(if r.get("ok").is_some() { "value" } else { "error" });
    }
    for r in b.ok(0).and_then(|a| a.as_array()).into_iter().flatten() {
        o.hit(if r.get("ok").is_some() { "reader value" } else { "reader error" });
    }
    b.sound()?;
    if calls.len() > 2 {
        need(&b, 2, "export with a good replay")?;
        need(&b, 3, "scan with a good replay")?;
    }
    Ok(())
}
fn r_bool(sc: &Scenario) -> bool {
    mix(sc.seed) & 1 == 0
}

// ------------------------------------------------------------------ S04
fn mk04(r: &mut Rng, _i: u64, th: bool) -> Scenario {
    let mut sc = Scenario::new("S04", 0);
    let c = DirCfg { good: 1 + r.idx(if th { 6 } else { 4 }), bad: 1 + r.idx(4), events: 30, odd_names: true, full: false };
    sc.files = gen_dir(r, &c);
    // files that are whole but cannot be read, or go away
    let n = sc.files.len();
    for k in 0..n {
        if sc.files[k].bad && r.chance(1, 3) {
            let src = sc.files.iter().find_map(|f| f.kind.the_match().cloned());
            if let Some(m) = src {
                sc.files[k].kind = Kind::Match(Box::new(m));
                let path = sc.files[k].path.clone();
                let nth = if r.chance(1, 2) { None } else { Some(r.below(9)) };
                let f = match r.below(4) {
                    0 => Fault { op: Op::Open, path, nth, act: Action::Errno(*r.pick(&[13, EIO, 2, 40])) },
                    1 => Fault { op: Op::Open, path, nth: Some(r.below(9)), act: Action::Vanish },
                    2 => Fault { op: Op::Open, path, nth: Some(r.below(9)), act: Action::Shrink(r.idx(3000)) },
                    _ => Fault { op: Op::Read, path, nth: Some(r.below(20)), act: Action::Errno(EIO) },
                };
                sc.faults.list.push(f);
            }
        }
    }
    sc.faults.dir_order = if r.chance(1, 2) { r.next() | 1 } else { 0 };
    schedule(r, &mut sc);
    dirs(&mut sc);
    with_balance(r, &mut sc);
    sc.p = json!({"serial": r.chance(1, 3)});
    sc
}
fn ck04(sc: &Scenario, o: &mut Obs) -> Result<(), Bad> {
    let serial = sc.p["serial"] == json!(true);
    let good: Vec<&FileSpec> = sc.files.iter().filter(|f| is_file(f) && !f.bad).collect();
    if good.is_empty() {
        return Ok(());
    }
    let a = go(sc, o, &calm(sc).disk(), &sc.image_of(|f| !f.bad), &[export(true)])?;
    a.sound()?;
    need(&a, 0, "export of good replays")?;
    let ta = tables_of(&a)?;
    let img = sc.image();
    let b = go(sc, o, &How::dirty(sc).disk(), &img, &[export(serial)])?;
    b.sound()?;
    need(&b, 0, "export with bad files")?;
    let tb = tables_of(&b)?;
    for f in &good {
        let n = String::from_utf8_lossy(&f.path).into_owned();
        let Some(w) = rows_of_file(&ta, &n) else { continue };
        let Some(g) = rows_of_file(&tb, &n) else {
            return bad("export: good replay lost", format!("{n} has no details rows once bad files are present"));
        };
        for t in tables::TABLES {
            if let Some(d) = diff(&json!(w[t]), &json!(g[t])) {
                return bad(format!("export: {t}"), format!("rows of {n} in {t} change when bad files are present: {d}"));
            }
        }
    }
    let b = go(sc, o, &How::dirty(sc), &img, &[stats(serial)])?;
    b.sound()?;
    let v = need(&b, 0, "scan with bad files")?.clone();
    o.nontrivial.insert(b.run.st.trace);
    // contribution of every file on its own
    let (mut total, mut supp) = (0, 0);
    let (mut players, mut maps) = (BTreeMap::new(), BTreeMap::new());
    for f in sc.files.iter().filter(|f| is_file(f)) {
        if !f.bad {
            let m = f.kind.the_match().unwrap();
            total += 1;
            supp += 1;
            let (p, t) = ranks(m);
            for p in p {
                *players.entry(p).or_default() += 1;
            }
            *maps.entry(t).or_default() += 1;
            continue;
        }
        let mut h = How::dirty(sc);
        h.workers = 1;
        h.sched = SchedPlan::default();
        let s = go(sc, o, &h, &sc.image_of(|g| g.path == f.path || !is_file(g)), &[stats(serial)])?;
        s.sound()?;
        let s = need(&s, 0, "scan of one bad file")?;
        total += s["total_files"].as_u64().unwrap_or(0);
        supp += s["total_supported_replays"].as_u64().unwrap_or(0);
        add_ranks(&s["top_10_players"], &mut players);
        add_ranks(&s["top_10_maps"], &mut maps);
        o.hit(if s["total_supported_replays"] == json!(0) { "bad file unreadable" } else { "bad file readable" });
    }
    if v["total_files"] != json!(total) {
        return bad("scan: total", format!("{} files counted, alone they are {total}", v["total_files"]));
    }
    if v["total_supported_replays"] != json!(supp) {
        return bad("scan: supported", format!("{} replays readable, alone they are {supp}", v["total_supported_replays"]));
    }
    check_top("players", &v["top_10_players"], &players)?;
    check_top("maps", &v["top_10_maps"], &maps)
}

// ------------------------------------------------------------------ S05
fn mk05(r: &mut Rng, _i: u64, th: bool) -> Scenario {
    let mut sc = Scenario::new("S05", 0);
    let c = DirCfg { good: 1 + r.idx(if th { 6 } else { 4 }), bad: r.idx(2), events: 50, odd_names: false, full: false };
    sc.files = gen_dir(r, &c);
    dirs(&mut sc);
    with_balance(r, &mut sc);
    sc.faults.seed = r.next();
    let name = *r.pick(&tables::TABLES);
    let t = table_path(name).into_bytes();
    if r.chance(1, 2) {
        let m = *r.pick(&[1usize, 8, 64, 512]);
        sc.faults.probs.push(Prob { op: Op::Write, prefix: OUTD.into(), per100k: *r.pick(&[2_000u32, 20_000, 80_000]), act: Action::Short(m) });
    }
    if r.chance(1, 3) {
        sc.faults.probs.push(Prob { op: Op::Write, prefix: OUTD.into(), per100k: 15_000, act: Action::Errno(EINTR) });
    }
    let e = *r.pick(&[28, EIO, 122, 27, 32]);
    match r.below(7) {
        0 => {}
        1 => sc.faults.list.push(Fault { op: Op::Create, path: t, nth: if r.chance(1, 2) { None } else { Some(0) }, act: Action::Errno(*r.pick(&[13, 28, 24, 30, EIO])) }),
        2 if r.chance(1, 2) => sc.faults.sticky.push(Fault { op: Op::Write, path: t, nth: Some(r.skewed(60)), act: Action::Errno(e) }),
        2 | 3 => sc.faults.list.push(Fault { op: Op::Write, path: t, nth: Some(r.skewed(60)), act: Action::Errno(e) }),
        4 => sc.faults.list.push(Fault { op: Op::Write, path: t, nth: Some(r.skewed(60)), act: Action::Torn(r.skewed(200) as usize, e) }),
        5 => sc.p = json!({"space_permille": r.below(1000)}),
        _ => sc.faults.probs.push(Prob { op: Op::Write, prefix: OUTD.into(), per100k: *r.pick(&[100u32, 1000, 5000]), act: Action::Errno(e) }),
    }
    sc.p["serial"] = json!(r.chance(1, 2));
    if r.chance(1, 4) {
        sc.p["one"] = json!(if name == "details" && r.chance(1, 2) { "once" } else { name });
    }
    schedule(r, &mut sc);
    sc
}
fn sum_tables(img: &Image) -> u64 {
    tables::TABLES.iter().filter_map(|t| img.get(table_path(t))).map(|b| b.len() as u64).sum()
}
fn ck05(sc: &Scenario, o: &mut Obs) -> Result<(), Bad> {
    let img = sc.image();
    let a = go(sc, o, &calm(sc).disk(), &img, &[export(true)])?;
    a.sound()?;
    need(&a, 0, "undisturbed export")?;
    let ta = tables_of(&a)?;
    let mut h = How::dirty(sc).disk();
    let only = sc.p["one"].as_str();
    if let Some(k) = sc.p["space_permille"].as_u64() {
        h.faults.disk_space = Some(sum_tables(disk(&a)?) * k / if only.is_some() { 5000 } else { 1000 });
    }
    let serial = sc.p["serial"] == json!(true);
    let c = match only {
        Some(t) => one_table(t, serial),
        None => export(serial),
    };
    let b = go(sc, o, &h, &img, &[c])?;
    b.sound()?;
    let file = only.map(|t| if t == "once" { "details" } else { t });
    let hit = b.run.st.delivered.iter().any(hard);
    if !b.run.st.delivered.is_empty() {
        o.nontrivial.insert(b.run.st.trace);
    }
    match b.ok(0) {
        Some(_) => {
            o.hit(if hit { "success with errors" } else { "success" });
            let tb = match some_tables(disk(&b)?, file) {
                Ok(t) => t,
                Err((_, t)) => {
                    let k = if hit { "after a failed write" } else { "without a fault" };
                    return bad(format!("success, table bad {k}"), format!("the export reported success, but {t}"));
                }
            };
            if let Some((_, d)) = same_tables(&ta, &tb) {
                let k = if hit { "after a failed write" } else { "without a fault" };
                return bad(format!("success, rows wrong {k}"), format!("the export reported success, but {d}"));
            }
        }
        None => {
            o.hit("error");
            if !hit {
                return bad("fails without error", format!("the export fails although nothing failed: {:?}", b.err(0)));
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ S06
fn mk06(r: &mut Rng, _i: u64, th: bool) -> Scenario {
    let mut sc = Scenario::new("S06", 0);
    let c = DirCfg { good: 1 + r.idx(if th { 5 } else { 3 }), bad: r.idx(2), events: 40, odd_names: false, full: false };
    sc.files = gen_dir(r, &c);
    if r.chance(2, 3) {
        // replays of an older export
        let c = DirCfg { good: 1 + r.idx(3), bad: 0, events: 40, odd_names: false, full: false };
        for mut f in gen_dir(r, &c) {
            let mut p = b"/sim/old".to_vec();
            p.extend(&f.path[ROOT.len()..]);
            f.path = p;
            sc.files.push(f);
        }
        sc.shape = "over an older export".into();
    } else {
        sc.shape = "fresh".into();
    }
    dirs(&mut sc);
    with_balance(r, &mut sc);
    sc.p = json!({"at_permille": r.below(1001), "tail": r.chance(1, 3), "serial": r.chance(1, 2), "serial2": r.chance(1, 2)});
    sc.faults.seed = r.next();
    sc.faults.crash_bytes = r.skewed(300);
    if r.chance(1, 3) {
        sc.faults.probs.push(Prob { op: Op::Write, prefix: OUTD.into(), per100k: 30_000, act: Action::Short(64) });
    }
    schedule(r, &mut sc);
    sc
}
fn ck06(sc: &Scenario, o: &mut Obs) -> Result<(), Bad> {
    let is_old = |f: &FileSpec| f.path.starts_with(b"/sim/old");
    let mut img = sc.image_of(|f| !is_old(f));
    let mut old: Option<Tables> = None;
    if sc.files.iter().any(is_old) {
        let c = Call::Export { src: rd("/sim/old"), out: rd(OUTD), props: Props::default(), serial: true };
        let a = go(sc, o, &How::clean(sc).disk(), &sc.image(), &[c])?;
        a.sound()?;
        need(&a, 0, "older export")?;
        old = Some(tables_of(&a)?);
        for t in tables::TABLES {
            img.file(table_path(t), disk(&a)?.get(table_path(t)).unwrap().to_vec());
        }
    }
    let serial = sc.p["serial"] == json!(true);
    let a = go(sc, o, &calm(sc).disk(), &img, &[export(true)])?;
    a.sound()?;
    need(&a, 0, "undisturbed export")?;
    let new = tables_of(&a)?;
    // how many operations the disturbed run has
    let probe = go(sc, o, &How::dirty(sc), &img, &[export(serial)])?;
    let n = probe.run.st.io_ops;
    let mut h = How::dirty(sc).disk();
    h.faults.crash_at = Some(if sc.p["tail"] == json!(true) {
        // the last operations of a table: just before and after its completion
        n.saturating_sub(1 + sc.p["at_permille"].as_u64().unwrap_or(0) * n.min(60) / 1000)
    } else {
        n * sc.p["at_permille"].as_u64().unwrap_or(0) / 1000
    });
    let b = go(sc, o, &h, &img, &[export(serial)])?;
    if b.run.end != End::Crash {
        o.hit("kill point not reached");
        return b.sound();
    }
    o.nontrivial.insert(b.run.st.trace);
    let d = disk(&b)?.clone();
    for t in tables::TABLES {
        let Some(bytes) = d.get(table_path(t)) else {
            o.hit("table absent");
            continue;
        };
        let Ok(rows) = tables::read(bytes) else {
            o.hit("table incomplete");
            continue;
        };
        let is = |x: &Tables| same_rows(&x[t], &rows).is_none();
        if is(&new) {
            o.hit("table of the new export");
        } else if old.as_ref().is_some_and(is) {
            o.hit("table of the old export");
        } else {
            let w = same_rows(&new[t], &rows).unwrap();
            return bad(format!("{t} wrong"), format!("after the kill, {t} reads as a complete table but {w}"));
        }
    }
    let mut h = How::dirty(sc).disk();
    h.faults.crash_at = None;
    let c = go(sc, o, &h, &d, &[export(sc.p["serial2"] == json!(true))])?;
    c.sound()?;
    need(&c, 0, "export after a kill")?;
    let tc = tables_of(&c)?;
    if let Some((t, d)) = same_tables(&new, &tc) {
        return bad(format!("again: {t}"), format!("repeating the killed export gives other tables: {d}"));
    }
    Ok(())
}

// ------------------------------------------------------------------ S07
fn mk07(r: &mut Rng, _i: u64, th: bool) -> Scenario {
    let mut sc = Scenario::new("S07", 0);
    let c = DirCfg { good: 1 + r.idx(if th { 10 } else { 6 }), bad: r.idx(3), events: 40, odd_names: false, full: false };
    sc.files = gen_dir(r, &c);
    dirs(&mut sc);
    with_balance(r, &mut sc);
    sc.faults.dir_order = if r.chance(2, 3) { r.next() | 1 } else { 0 };
    schedule(r, &mut sc);
    if r.chance(1, 3) {
        mild_reads(r, &mut sc.faults, false);
    }
    if r.chance(1, 3) {
        sc.faults.probs.push(Prob { op: Op::Write, prefix: OUTD.into(), per100k: 20_000, act: Action::Delay(2_000_000_000) });
    }
    let mut props = Props::default();
    if r.chance(1, 3) {
        props.scan = 1 + r.idx(8);
    }
    if r.chance(1, 3) {
        props.process = 1 + r.idx(6);
    }
    if r.chance(1, 4) {
        props.min = Some(*r.pick(&VERSIONS));
    }
    if r.chance(1, 4) {
        props.max = Some(*r.pick(&VERSIONS));
    }
    sc.p = json!({"stats": r.chance(1, 4), "props": props});
    sc
}
fn ck07(sc: &Scenario, o: &mut Obs) -> Result<(), Bad> {
    let img = sc.image();
    if sc.p["stats"] == json!(true) {
        let a = go(sc, o, &calm(sc), &img, &[stats(true)])?;
        a.sound()?;
        let b = go(sc, o, &How::dirty(sc), &img, &[stats(false)])?;
        b.sound()?;
        o.nontrivial.insert(b.run.st.inter);
        if let Some(d) = diff(&strip(&a.res[0]), &strip(&b.res[0])) {
            return bad("scan differs", format!("serial and parallel scan differ: {d}"));
        }
        return Ok(());
    }
    let a = go(sc, o, &calm(sc).disk(), &img, &[export_p(sc, true)])?;
    a.sound()?;
    let b = go(sc, o, &How::dirty(sc).disk(), &img, &[export_p(sc, false)])?;
    b.sound()?;
    if a.ok(0).is_some() != b.ok(0).is_some() {
        return bad("outcome differs", format!("serial: {}, parallel: {}", short(&a.res[0]), short(&b.res[0])));
    }
    if a.ok(0).is_none() {
        o.hit("nothing to export");
        return Ok(());
    }
    if b.run.st.threads > 2 {
        o.nontrivial.insert(b.run.st.inter);
    }
    let (ta, tb) = (tables_of(&a)?, tables_of(&b)?);
    if let Some((t, d)) = same_tables(&ta, &tb) {
        return bad(format!("export differs: {t}"), format!("serial and parallel export differ: {d}"));
    }
    Ok(())
}

// ------------------------------------------------------------------ S08
fn mk08(r: &mut Rng, i: u64, th: bool) -> Scenario {
    let mut sc = mk07(r, i, th);
    sc.p["stats"] = json!(false);
    sc.p["serial"] = json!(r.chance(1, 4));
    let mut used: BTreeSet<Vec<u8>> = sc.files.iter().map(|f| f.path.clone()).collect();
    for _ in 0..r.idx(3) {
        if let Some(m) = sc.files.iter().find_map(|f| f.kind.the_match().cloned()) {
            sc.files.push(FileSpec::bad(place(r, &mut used, false), bad_kind(r, &m)));
        }
    }
    if r.chance(1, 2) && sc.files.len() > 3 {
        let k = r.idx(sc.files.len() - 2);
        if is_file(&sc.files[k]) && sc.files.iter().filter(|f| f.kind.the_match().is_some()).count() > 1 {
            let path = sc.files[k].path.clone();
            let act = if r.chance(1, 2) { Action::Vanish } else { Action::Errno(EIO) };
            sc.faults.list.push(Fault { op: Op::Open, path, nth: Some(r.below(10)), act });
        }
    }
    sc
}
fn ck08(sc: &Scenario, o: &mut Obs) -> Result<(), Bad> {
    let img = sc.image();
    let b = go(sc, o, &How::dirty(sc).disk(), &img, &[export_p(sc, sc.p["serial"] == json!(true))])?;
    b.sound()?;
    if b.ok(0).is_none() {
        o.hit("export failed");
        return Ok(());
    }
    let t = tables_of(&b)?;
    let shas: BTreeMap<String, String> = sc
        .files
        .iter()
        .filter(|f| is_file(f))
        .map(|f| (String::from_utf8_lossy(&f.path).into_owned(), tables::sha256(&f.kind.bytes())))
        .collect();
    let mut who: BTreeMap<u64, (String, String, Value)> = BTreeMap::new();
    let mut file_id: BTreeMap<String, u64> = BTreeMap::new();
    for r in &t["details"] {
        let Some(id) = r["ext_fs_id"].as_u64() else { return bad("details: no id", short(r)) };
        let me = (
            r["ext_fs_file_name"].as_str().unwrap_or("").to_string(),
            r["ext_fs_sha256"].as_str().unwrap_or("").to_string(),
            r["ext_datetime"].clone(),
        );
        match shas.get(&me.0) {
            None => return bad("details: file", format!("row of an unknown file {:?}", me.0)),
            Some(s) if *s != me.1 => {
                return bad("details: fingerprint", format!("{} has fingerprint {s}, the row says {}", me.0, me.1));
            }
            _ => {}
        }
        if let Some(w) = who.get(&id)
            && *w != me
        {
            return bad("details: id shared", format!("identifier {id} stands for {w:?} and {me:?}"));
        }
        if let Some(k) = file_id.insert(me.0.clone(), id)
            && k != id
        {
            return bad("details: two ids", format!("{} has identifiers {k} and {id}", me.0));
        }
        who.insert(id, me);
    }
    let mut several = 0;
    for (id, w) in &who {
        let mut n = 0;
        for name in tables::TABLES {
            let mine: Vec<&Value> = t[name].iter().filter(|r| r["ext_fs_id"].as_u64() == Some(*id)).collect();
            n += !mine.is_empty() as u32;
            for r in mine {
                for (col, want) in [("ext_fs_file_name", json!(w.0)), ("ext_fs_sha256", json!(w.1)), ("ext_datetime", w.2.clone())] {
                    if let Some(x) = r.get(col)
                        && *x != want
                    {
                        return bad(format!("{name}: {col}"), format!("match {id} is {want} in details, {x} in {name}"));
                    }
                }
            }
        }
        several += (n > 1) as u32;
    }
    if several >= 2 {
        o.nontrivial.insert(b.run.st.trace);
    }
    // rows say which match they belong to, and it is the right one: compare with each file alone
    for (id, w) in &who {
        let Some(f) = sc.files.iter().find(|f| String::from_utf8_lossy(&f.path) == w.0) else { continue };
        if sc.faults.list.iter().any(|x| x.path == f.path) {
            continue;
        }
        let a = go(sc, o, &calm(sc).disk(), &sc.image_of(|g| g.path == f.path || !is_file(g)), &[export(true)])?;
        a.sound()?;
        if a.ok(0).is_none() {
            continue;
        }
        let ta = tables_of(&a)?;
        for name in tables::TABLES {
            let x: Vec<Value> = ta[name].iter().map(tables::no_id).collect();
            let y: Vec<Value> = t[name].iter().filter(|r| r["ext_fs_id"].as_u64() == Some(*id)).map(tables::no_id).collect();
            if let Some(d) = diff(&json!(x), &json!(y)) {
                return bad(format!("{name}: wrong match"), format!("rows with identifier {id} ({}) in {name} are not those of that file: {d}", w.0));
            }
        }
    }
    // no rows of anything else
    for name in tables::TABLES {
        for r in &t[name] {
            let id = r["ext_fs_id"].as_u64().unwrap_or(u64::MAX);
            if !who.contains_key(&id) {
                let faulty = !sc.faults.list.is_empty() || sc.files.iter().any(|f| f.bad);
                if !faulty {
                    return bad(format!("{name}: unknown id"), format!("{name} has rows of match {id}, which is not in details"));
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ S09
fn mk09(r: &mut Rng, _i: u64, th: bool) -> Scenario {
    let mut sc = Scenario::new("S09", 0);
    let c = DirCfg { good: r.idx(if th { 40 } else { 20 }), bad: r.idx(3), events: 2, odd_names: true, full: false };
    sc.files = gen_dir(r, &c);
    dirs(&mut sc);
    let vs: Vec<u32> = (0..r.idx(4)).map(|_| *r.pick(&VERSIONS)).collect();
    let mut vs = vs;
    vs.sort();
    vs.dedup();
    sc.balance = gen_balance(r, &vs, 1, false);
    sc.faults.dir_order = r.next() | 1;
    schedule(r, &mut sc);
    sc.p = json!({"serial": r.chance(1, 2), "serial2": r.chance(1, 2), "order2": r.next() | 1, "seed2": r.next(), "workers2": 1 + r.idx(4)});
    sc
}
fn ck09(sc: &Scenario, o: &mut Obs) -> Result<(), Bad> {
    let img = sc.image();
    let b = go(sc, o, &How::dirty(sc), &img, &[stats(sc.p["serial"] == json!(true))])?;
    b.sound()?;
    let v = need(&b, 0, "scan")?;
    let mut h = How::clean(sc);
    h.seed = sc.p["seed2"].as_u64().unwrap_or(1);
    h.workers = sc.p["workers2"].as_u64().unwrap_or(1) as usize;
    h.faults.dir_order = sc.p["order2"].as_u64().unwrap_or(0);
    let c = go(sc, o, &h, &img, &[stats(sc.p["serial2"] == json!(true))])?;
    c.sound()?;
    let w = need(&c, 0, "second scan")?;
    let bals: BTreeSet<u64> = sc.balance.as_array().into_iter().flatten().filter_map(|e| e[0].as_u64()).collect();
    // files outside our knowledge count through their own scan
    let (mut total, mut supp, mut abil) = (0, 0, 0);
    let (mut players, mut maps) = (BTreeMap::new(), BTreeMap::new());
    let mut good = 0;
    for f in sc.files.iter().filter(|f| is_file(f)) {
        if !f.bad {
            good += 1;
            total += 1;
            supp += 1;
            let m = f.kind.the_match().unwrap();
            abil += bals.contains(&(m.version() as u64)) as u64;
            let (p, t) = ranks(m);
            for p in p {
                *players.entry(p).or_default() += 1;
            }
            *maps.entry(t).or_default() += 1;
        } else {
            let s = go(sc, o, &How::clean(sc), &sc.image_of(|g| g.path == f.path || !is_file(g)), &[stats(true)])?;
            s.sound()?;
            let s = need(&s, 0, "scan of one bad file")?;
            if std::str::from_utf8(&f.path).is_err() && s["total_files"] != json!(1) && matches!(f.kind, Kind::Raw(_)) {
                return bad("total", format!("the file {} is not counted", f.name()));
            }
            total += s["total_files"].as_u64().unwrap_or(0);
            supp += s["total_supported_replays"].as_u64().unwrap_or(0);
            abil += s["ability_supported_replays"].as_u64().unwrap_or(0);
            add_ranks(&s["top_10_players"], &mut players);
            add_ranks(&s["top_10_maps"], &mut maps);
        }
    }
    if good >= 2 {
        o.nontrivial.insert(b.run.st.trace);
    }
    for (k, x) in [("total_files", total), ("total_supported_replays", supp), ("ability_supported_replays", abil)] {
        if v[k] != json!(x) {
            return bad(k, format!("{k} should be {x}, is {}", v[k]));
        }
    }
    check_top("players", &v["top_10_players"], &players)?;
    check_top("maps", &v["top_10_maps"], &maps)?;
    let mut ties = players.values().chain(maps.values()).collect::<Vec<_>>();
    ties.sort();
    ties.dedup();
    if players.len() > 10 {
        o.hit("more than ten players");
    }
    if let Some(d) = diff(v, w) {
        return bad("not repeatable", format!("two scans of the same directory differ: {d}"));
    }
    Ok(())
}

// ------------------------------------------------------------------ S10
fn mk10(r: &mut Rng, i: u64, th: bool) -> Scenario {
    let mut sc = Scenario::new("S10", 0);
    let (f, big) = one_replay(r, th, if i < 3 { 1 } else { 150 });
    sc.files.push(f);
    if i < 3 {
        let a = assets();
        if !a.is_empty() {
            sc.files[0].kind = Kind::Asset(a[i as usize % a.len()].clone());
        }
    }
    some_mild(r, &mut sc, big);
    with_balance(r, &mut sc);
    sc
}
const A: &str = "/sim/a.SC2Replay";
fn the_file(sc: &Scenario) -> Result<Match, Bad> {
    match sc.files.first().and_then(|f| match_of(&f.kind)) {
        Some(m) => Ok(m),
        None => harness("cannot decode the replay"),
    }
}
fn ck10(sc: &Scenario, o: &mut Obs) -> Result<(), Bad> {
    let m = the_file(sc)?;
    let b = go(sc, o, &How::dirty(sc), &sc.image(), &[Call::Timeline(tl(A, false))])?;
    b.sound()?;
    let v = need(&b, 0, "timeline")?;
    let steps = v["steps"].as_array().unwrap();
    let (t, g) = (model::expect(&m.tracker, 0), model::expect(&m.game, 1));
    if t.len() > 1 && g.len() > 1 {
        o.nontrivial.insert(content(&v["steps"]));
    }
    o.add("events", steps.len() as u64);
    if let Some((s, w)) = model::check_order(&model::lobby(&m), &t, &g, steps) {
        return bad(s, w);
    }
    if v["tail"] != json!(0) {
        return bad("after the end", format!("{} more items after the end", v["tail"]));
    }
    Ok(())
}

// ------------------------------------------------------------------ S11, S23
fn mk11(r: &mut Rng, i: u64, th: bool) -> Scenario {
    let mut sc = Scenario::new("S11", 0);
    let (f, big) = one_replay(r, th, if i < 2 { 1 } else { 400 });
    sc.files.push(f);
    if r.chance(1, 4) {
        some_mild(r, &mut sc, big);
    }
    with_balance(r, &mut sc);
    sc
}
fn ck11(sc: &Scenario, o: &mut Obs) -> Result<(), Bad> {
    let m = the_file(sc)?;
    let b = go(sc, o, &How::dirty(sc), &sc.image(), &[Call::Timeline(tl(A, true))])?;
    b.sound()?;
    let v = need(&b, 0, "timeline")?;
    let md = Model::new(&m, &sc.balance);
    o.add("events", v["steps"].as_array().map(|a| a.len()).unwrap_or(0) as u64);
    let mut kinds: BTreeMap<String, u64> = BTreeMap::new();
    for s in v["steps"].as_array().unwrap() {
        if let Some(it) = model::item(&s[0]) {
            *kinds.entry(it.ev.as_object().and_then(|x| x.keys().next().cloned()).unwrap_or_default()).or_default() += 1;
        }
    }
    let n = |k: &str| kinds.get(k).copied().unwrap_or(0);
    if n("UnitBorn") + n("UnitInit") >= 3 && n("Cmd") + n("ControlGroupUpdate") + n("SelectionDelta") >= 1 {
        o.nontrivial.insert(content(&v["steps"]));
    }
    for (k, c) in kinds {
        o.add(&format!("event {k}"), c);
    }
    let r = model::check_state(md, v, |h| {
        o.states.insert(h);
    });
    if let Some((s, w)) = r {
        return bad(s, w);
    }
    Ok(())
}
fn mk23(r: &mut Rng, i: u64, th: bool) -> Scenario {
    mk11(r, i, th)
}
fn ck23(sc: &Scenario, o: &mut Obs) -> Result<(), Bad> {
    let b = go(sc, o, &How::dirty(sc), &sc.image(), &[Call::Timeline(tl(A, true))])?;
    b.sound()?;
    let v = need(&b, 0, "timeline")?;
    let mut n = 0;
    for s in v["steps"].as_array().unwrap() {
        let h = &s[1];
        let k = h.as_str().map(|s| s.to_string()).or_else(|| h.as_object().and_then(|o| o.keys().next().cloned())).unwrap_or_default();
        n += (k == "Registered") as u32;
        o.hit(&format!("hint {k}"));
    }
    if n >= 3 {
        o.nontrivial.insert(content(&v["steps"]));
    }
    if let Some((s, w)) = model::check_hints(v) {
        return bad(s, w);
    }
    Ok(())
}

// ------------------------------------------------------------------ S12
fn mk12(r: &mut Rng, _i: u64, th: bool) -> Scenario {
    let mut sc = Scenario::new("S12", 0);
    let (f, _) = one_replay(r, th, 300);
    let end: u64 = f.kind.the_match().map(|m| m.tracker.iter().map(|e| e.d as u64).sum::<u64>().max(1)).unwrap_or(10_000);
    let n: u64 = f.kind.the_match().map(|m| (m.tracker.len() + m.game.len()) as u64).unwrap_or(2000);
    sc.files.push(f);
    with_balance(r, &mut sc);
    let mut f = json!({});
    let all = r.chance(1, 8);
    if all || r.chance(1, 3) {
        f["player_id"] = json!(r.below(17));
    }
    if all || r.chance(1, 4) {
        f["unit_name"] = json!(*r.pick(&NAMES));
    }
    if all || r.chance(1, 3) {
        f["min_loop"] = json!(r.below(end + 2));
    }
    if all || r.chance(1, 3) {
        let lo = f["min_loop"].as_u64().unwrap_or(0);
        f["max_loop"] = json!(if r.chance(1, 6) { r.below(end + 2) } else { lo + r.below(end + 2) });
    }
    if all || r.chance(1, 3) {
        f["max_events"] = json!(if r.chance(1, 2) { r.below(8) } else { r.below(n + 2) });
    }
    if r.chance(1, 2) {
        f["include_stats"] = json!(r.chance(1, 2));
    }
    sc.p = json!({"filters": f});
    let named: Option<Vec<(String, Option<i64>)>> = sc.files[0].kind.the_match().map(slots);
    if let Some(l) = named
        && r.chance(1, 5)
    {
        // a name that stands for one player, or for none
        let mut c: Vec<String> = vec!["Nobody".into()];
        c.extend(l.iter().filter(|p| p.1.is_some() && l.iter().filter(|q| q.0 == p.0).count() == 1).map(|p| p.0.clone()));
        sc.p["name"] = json!(c[r.idx(c.len())]);
    }
    sc
}
/// names and slots of the players in the details
fn slots(m: &Match) -> Vec<(String, Option<i64>)> {
    let l = m.details.f("m_player_list").o().map(|l| l.l().clone()).unwrap_or_default();
    l.iter().map(|p| (p.f("m_name").str(), p.f("m_working_set_slot_id").oi())).collect()
}
/// Is this item inside what the filters ask for?
fn shown(f: &Value, it: &model::Item) -> bool {
    let (kind, e) = match it.ev.as_object().and_then(|o| o.iter().next()) {
        Some(x) => x,
        None => return false,
    };
    let num = |k: &str| f.get(k).and_then(|x| x.as_i64());
    if it.tracker {
        if num("min_loop").is_some_and(|m| it.lo < m) || num("max_loop").is_some_and(|m| it.lo > m) {
            return false;
        }
        if kind == "PlayerStats" && f.get("include_stats") != Some(&json!(true)) {
            return false;
        }
    }
    if let Some(p) = num("player_id") {
        let who = match kind.as_str() {
            _ if !it.tracker => Some(it.user),
            "UnitBorn" | "UnitInit" | "UnitOwnerChange" => e["control_player_id"].as_i64(),
            "UnitDied" => Some(e["killer_player_id"].as_i64().unwrap_or(-1)),
            "PlayerSetup" | "Upgrade" | "PlayerStats" => e["player_id"].as_i64(),
            _ => None,
        };
        if who.is_some_and(|w| w != p) {
            return false;
        }
    }
    if let Some(u) = f.get("unit_name").and_then(|x| x.as_str())
        && it.tracker
        && matches!(kind.as_str(), "UnitBorn" | "UnitInit" | "UnitTypeChange")
        && e["unit_type_name"].as_str() != Some(u)
    {
        return false;
    }
    true
}
/// A fingerprint of the state after every step.
fn states(v: &Value) -> Vec<u64> {
    states_of(&v["first"], &v["steps"])
}
fn states_of(first: &Value, steps: &Value) -> Vec<u64> {
    let mut h = 0u64;
    let mut now: BTreeMap<String, u64> = BTreeMap::new();
    let mut apply = |du: &Value, dus: &Value| {
        for (p, d) in [("u", du), ("p", dus)] {
            for (k, x) in d.as_object().into_iter().flatten() {
                let k = format!("{p}{k}");
                if let Some(o) = now.remove(&k) {
                    h = h.wrapping_sub(o);
                }
                if !x.is_null() {
                    let n = crate::sim::rng::hash_bytes(content(x), k.as_bytes());
                    h = h.wrapping_add(n);
                    now.insert(k, n);
                }
            }
        }
        h
    };
    apply(&first[0], &first[1]);
    steps.as_array().into_iter().flatten().map(|x| apply(&x[2], &x[3])).collect()
}
/// The whole state after step n, for reports.
fn state_at(first: &Value, steps: &Value, n: usize) -> Value {
    let mut s = Seen::default();
    s.apply(&first[0], &first[1]);
    for x in steps.as_array().into_iter().flatten().take(n + 1) {
        s.apply(&x[2], &x[3]);
    }
    json!([s.units, s.users])
}
fn ck12(sc: &Scenario, o: &mut Obs) -> Result<(), Bad> {
    let mut f = sc.p["filters"].clone();
    let name = sc.p["name"].as_str();
    if let (Some(n), Some(m)) = (name, sc.files.first().and_then(|f| f.kind.the_match()))
        && let Some((_, Some(id))) = slots(m).into_iter().find(|p| p.0 == n)
    {
        f["player_id"] = json!(id);
        o.hit("player by name");
    }
    let f = &f;
    let img = sc.image();
    let b = go(sc, o, &How::clean(sc), &img, &[Call::Timeline(tl(A, true))])?;
    b.sound()?;
    let u = need(&b, 0, "timeline")?;
    let mut t = tl(A, true);
    t.filters = sc.p["filters"].clone();
    t.by_name = name.map(|n| n.to_string());
    let c = go(sc, o, &How::dirty(sc), &img, &[Call::Timeline(t)])?;
    c.sound()?;
    let v = need(&c, 0, "filtered timeline")?;
    let all = u["steps"].as_array().unwrap();
    let got = v["steps"].as_array().unwrap();
    let mut want: Vec<usize> = vec![];
    for (k, s) in all.iter().enumerate() {
        if let Some(it) = model::item(&s[0])
            && shown(f, &it)
        {
            want.push(k);
        }
    }
    if let Some(n) = f.get("max_events").and_then(|n| n.as_u64()) {
        want.truncate(n as usize);
        o.hit("event limit");
    }
    if !want.is_empty() && want.len() < all.len() {
        o.nontrivial.insert(mix(content(&v["steps"]) ^ content(f)));
    }
    let (su, sv) = (states(u), states(v));
    for (n, k) in want.iter().enumerate() {
        let Some(g) = got.get(n) else {
            return bad(
                "lost",
                format!("filters {f}: {} items shown, {} are inside; missing: {}", got.len(), want.len(), short(&all[*k][0])),
            );
        };
        if g[0] != all[*k][0] {
            return bad("item", format!("filters {f}: item {n} should be {}, is {}", short(&all[*k][0]), short(&g[0])));
        }
        if g[1] != all[*k][1] {
            return bad("hint", format!("filters {f}: hint of item {n}: {}", diff(&all[*k][1], &g[1]).unwrap_or_default()));
        }
        if su[*k] != sv[n] {
            let (a, b) = (state_at(&u["first"], &u["steps"], *k), state_at(&v["first"], &v["steps"], n));
            return bad("state", format!("filters {f}: state at item {n}: {}", diff(&a, &b).unwrap_or_default()));
        }
    }
    if got.len() > want.len() {
        return bad("shown too much", format!("filters {f}: {} items shown, {} are inside; extra: {}", got.len(), want.len(), short(&got[want.len()][0])));
    }
    if v["tail"] != json!(0) {
        return bad("after the end", format!("filters {f}: {} more items after the end", v["tail"]));
    }
    Ok(())
}

// ------------------------------------------------------------------ S13
fn mk13(r: &mut Rng, i: u64, th: bool) -> Scenario {
    let mut sc = mk12(r, i, th);
    if r.chance(1, 2) {
        sc.p["filters"] = Value::Null;
    }
    let n = sc.files[0].kind.the_match().map(|m| m.tracker.len() + m.game.len()).unwrap_or(500);
    sc.p["at"] = json!(r.idx(n + 2));
    if r.chance(1, 3) {
        sc.shape = "clone".into();
    } else {
        sc.shape = "save".into();
        sc.faults.seed = r.next();
        for op in [Op::Read, Op::Write] {
            if r.chance(1, 2) {
                sc.faults.probs.push(Prob { op, prefix: "/sim/save".into(), per100k: 50_000, act: Action::Short(*r.pick(&[40usize, 1000, 20000])) });
            }
            if r.chance(1, 3) {
                sc.faults.probs.push(Prob { op, prefix: "/sim/save".into(), per100k: 20_000, act: Action::Errno(EINTR) });
            }
        }
        sc.p["seed2"] = json!(r.next());
    }
    sc
}
fn ck13(sc: &Scenario, o: &mut Obs) -> Result<(), Bad> {
    let img = sc.image();
    let at = sc.p["at"].as_u64().unwrap_or(0) as usize;
    let mut t = tl(A, true);
    t.dbg = true;
    t.filters = sc.p["filters"].clone();
    let a = go(sc, o, &How::clean(sc), &img, &[Call::Timeline(t.clone())])?;
    a.sound()?;
    let u = need(&a, 0, "timeline")?;
    let all = u["steps"].as_array().unwrap();
    let su = states(u);
    if at > 0 && at < all.len() {
        o.nontrivial.insert(mix(content(&u["steps"]) ^ at as u64));
    }
    let same = |what: &str, from: usize, v: &Value, steps: &Value| -> Result<(), Bad> {
        let got = steps.as_array().unwrap();
        let rest = &all[from.min(all.len())..];
        for (n, w) in rest.iter().enumerate() {
            let Some(g) = got.get(n) else {
                return bad(format!("{what}: lost"), format!("{} items instead of {}", got.len(), rest.len()));
            };
            for k in [0, 1, 4] {
                if let Some(d) = diff(&w[k], &g[k]) {
                    return bad(format!("{what}: item"), format!("saved or cloned after {at}: item {} differs: {d}", from + n));
                }
            }
        }
        if got.len() > rest.len() {
            return bad(format!("{what}: extra"), format!("{} items instead of {}", got.len(), rest.len()));
        }
        let sv = states_of(&v["first"], steps);
        for (n, s) in sv.iter().enumerate() {
            if what == "resume" && n == 0 {
                // compared with the state at the save below
                continue;
            }
            let w = &su[from + n];
            if w != s {
                return bad(
                    format!("{what}: state"),
                    format!("saved or cloned after {at}: state at item {} differs: {}", from + n, diff(&state_at(&u["first"], &u["steps"], from + n), &state_at(&v["first"], steps, n)).unwrap_or_default()),
                );
            }
        }
        Ok(())
    };
    if sc.shape == "clone" {
        t.clone_at = Some(at);
        let b = go(sc, o, &How::dirty(sc), &img, &[Call::Timeline(t)])?;
        b.sound()?;
        let v = need(&b, 0, "cloned timeline")?;
        same("clone", 0, v, &v["clone"])?;
        return same("original", 0, v, &v["steps"]);
    }
    t.save = Some((at, rd("/sim/save.json")));
    let b = go(sc, o, &How::dirty(sc).disk(), &img, &[Call::Timeline(t)])?;
    b.sound()?;
    let v = need(&b, 0, "saving")?;
    let first = v["steps"].as_array().unwrap().len();
    if first != at.min(all.len()) {
        return bad("save: items", format!("{first} items before the save instead of {}", at.min(all.len())));
    }
    // a new process, with nothing but the saved form
    let mut img2 = Image::new();
    img2.file("/sim/save.json", disk(&b)?.get("/sim/save.json").unwrap_or(&[]).to_vec());
    let mut t = tl(A, true);
    t.dbg = true;
    t.resume = Some(rd("/sim/save.json"));
    let mut h = How::dirty(sc);
    h.seed = sc.p["seed2"].as_u64().unwrap_or(9);
    let c = go(sc, o, &h, &img2, &[Call::Timeline(t)])?;
    c.sound()?;
    let w = need(&c, 0, "resuming")?;
    // the state right after loading is the state at the save
    let mut s0 = Seen::default();
    s0.apply(&v["first"][0], &v["first"][1]);
    for x in v["steps"].as_array().unwrap() {
        s0.apply(&x[2], &x[3]);
    }
    s0.apply(&v["last"][0], &v["last"][1]);
    let mut s1 = Seen::default();
    s1.apply(&w["first"][0], &w["first"][1]);
    if s0.units != s1.units || s0.users != s1.users {
        return bad("resume: state", format!("the loaded state differs: {}", diff(&json!([s0.units, s0.users]), &json!([s1.units, s1.users])).unwrap_or_default()));
    }
    if let Some(d) = diff(&v["dbg"], &w["dbg"]) {
        return bad("resume: state", format!("the loaded state differs in a part that was not saved: {d}"));
    }
    same("resume", first, w, &w["steps"])
}

// ------------------------------------------------------------------ S14
fn mk14(r: &mut Rng, _i: u64, th: bool) -> Scenario {
    let mut sc = Scenario::new("S14", 0);
    let c = DirCfg { good: 1 + r.idx(3), bad: r.idx(2), events: if th { 80 } else { 40 }, odd_names: false, full: false };
    sc.files = gen_dir(r, &c);
    dirs(&mut sc);
    with_balance(r, &mut sc);
    let paths: Vec<P> = sc.files.iter().filter(|f| is_file(f)).map(|f| P(f.path.clone())).collect();
    let mut lists = vec![];
    for t in 0..2 + r.idx(3) {
        let mut l = vec![];
        for k in 0..1 + r.idx(3) {
            let p = r.pick(&paths).clone();
            let c = match r.below(12) {
                0 => Call::ReadAll(p),
                1 => Call::Init(p, r.below(5)),
                2 => Call::Details(p),
                3 => Call::Tracker(p),
                4 => Call::Game(p),
                5 => {
                    let out = format!("/sim/o{t}{k}");
                    sc.files.push(FileSpec::new(&out, Kind::Dir));
                    Call::Export { src: rd(ROOT), out: rd(&out), props: Props::default(), serial: r.chance(1, 2) }
                }
                6 => stats(r.chance(1, 2)),
                7 => Call::Find { path: rd(ROOT), max: 100, depth: 5 },
                _ => {
                    let mut x = tl(A, r.chance(2, 3));
                    x.path = p;
                    if r.chance(1, 3) {
                        x.filters = json!({"player_id": r.below(4), "include_stats": true});
                    }
                    if r.chance(1, 6) {
                        x.clone_at = Some(r.idx(20));
                    }
                    Call::Timeline(x)
                }
            };
            l.push(c);
        }
        lists.push(l);
    }
    sc.calls = vec![Call::Par(lists)];
    schedule(r, &mut sc);
    if sc.sched.mode == 0 {
        sc.sched.mode = 1;
        sc.sched.mean = 500;
    }
    if r.chance(1, 4) {
        mild_reads(r, &mut sc.faults, false);
    }
    sc
}
fn ck14(sc: &Scenario, o: &mut Obs) -> Result<(), Bad> {
    let Some(Call::Par(lists)) = sc.calls.first() else { return Ok(()) };
    let img = sc.image();
    let b = go(sc, o, &How::dirty(sc).disk(), &img, &sc.calls)?;
    b.sound()?;
    let v = need(&b, 0, "parallel calls")?;
    if b.run.st.preempts + b.run.st.switches > 2 {
        o.nontrivial.insert(b.run.st.inter);
    }
    for (t, l) in lists.iter().enumerate() {
        for (k, c) in l.iter().enumerate() {
            let a = go(sc, o, &How::clean(sc).disk(), &img, std::slice::from_ref(c))?;
            a.sound()?;
            let name = format!("{c:?}").chars().take_while(|c| c.is_alphanumeric()).collect::<String>();
            if let Some(d) = diff(&strip(&a.res[0]), &strip(&v[t][k])) {
                return bad(format!("{name} differs"), format!("thread {t}, call {k} ({name}) differs from the same call alone: {d}"));
            }
            if let Call::Export { out, .. } = c
                && a.ok(0).is_some()
            {
                for t in tables::TABLES {
                    let p = format!("{}/{t}.arrow", out.string());
                    let rows = |o: &Out| -> Result<Vec<Value>, Bad> {
                        match disk(o)?.get(&p).map(tables::read) {
                            Some(Ok(r)) => Ok(r),
                            x => bad("Export differs", format!("{p}: {x:?}")),
                        }
                    };
                    if let Some(d) = same_rows(&rows(&a)?, &rows(&b)?) {
                        return bad("Export rows", format!("{p} differs from the same export alone: {d}"));
                    }
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ S15
fn mk15(r: &mut Rng, i: u64, th: bool) -> Scenario {
    let mut sc = Scenario::new("S15", 0);
    let c = DirCfg { good: 1 + r.idx(3), bad: 0, events: if th { 300 } else { 120 }, odd_names: false, full: r.chance(1, 2) };
    sc.files = gen_dir(r, &c);
    if i < 2 {
        let a = assets();
        if !a.is_empty() {
            sc.files = vec![FileSpec::new("/sim/r/rec.SC2Replay", Kind::Asset(a[i as usize % a.len()].clone()))];
        }
    }
    dirs(&mut sc);
    with_balance(r, &mut sc);
    schedule(r, &mut sc);
    sc.p = json!({"serial": r.chance(1, 2)});
    if i >= 2 && r.chance(1, 5) {
        sc.p["each"] = json!(true);
    }
    if r.chance(1, 3) {
        mild_reads(r, &mut sc.faults, i < 2);
    }
    if r.chance(1, 3) {
        sc.faults.probs.push(Prob { op: Op::Write, prefix: OUTD.into(), per100k: 20_000, act: Action::Short(100) });
    }
    sc
}
fn ck15(sc: &Scenario, o: &mut Obs) -> Result<(), Bad> {
    let img = sc.image();
    let serial = sc.p["serial"] == json!(true);
    let calls: Vec<Call> = if sc.p["each"] == json!(true) {
        o.hit("table by table");
        tables::TABLES.iter().map(|t| one_table(if *t == "details" && sc.seed & 1 == 0 { "once" } else { t }, serial)).collect()
    } else {
        vec![export(serial)]
    };
    let b = go(sc, o, &How::dirty(sc).disk(), &img, &calls)?;
    b.sound()?;
    for i in 0..calls.len() {
        need(&b, i, "export")?;
    }
    let t = tables_of(&b)?;
    let ids = id_files(&t);
    let mut known = BTreeSet::new();
    for f in sc.files.iter().filter(|f| is_file(f)) {
        let Some(m) = match_of(&f.kind) else { return harness("cannot decode") };
        if model::joined(&m).is_empty() {
            o.hit("no player joined");
            continue;
        }
        let n = String::from_utf8_lossy(&f.path).into_owned();
        let Some((id, _)) = ids.iter().find(|(_, x)| **x == n) else {
            return bad("details: missing", format!("{n} has no details rows"));
        };
        known.insert(*id);
        let mut call = tl(A, false);
        call.path = P(f.path.clone());
        let a = go(sc, o, &How::clean(sc), &img, &[Call::Timeline(call)])?;
        a.sound()?;
        let v = need(&a, 0, "timeline")?;
        let want = tables::want(&m, &sc.balance, v["steps"].as_array().unwrap(), &n, &tables::sha256(&f.kind.bytes()));
        for name in ["cmd_target_point", "cmd_target_unit"] {
            let named = |r: &&Value| r["ability"]["any"].as_array().is_some_and(|a| a.iter().any(|a| a != ""));
            o.add(&format!("ability named in {name}"), want[name].iter().filter(named).count() as u64);
        }
        let mut filled = 0;
        for name in tables::TABLES {
            let got: Vec<Value> = t[name].iter().filter(|r| r["ext_fs_id"].as_u64() == Some(*id)).cloned().collect();
            filled += !got.is_empty() as u32;
            o.add(&format!("rows {name}"), got.len() as u64);
            if let Some(d) = tables::diff_rows(&want[name], &got) {
                let col = d.split_whitespace().nth(2).unwrap_or("").to_string();
                return bad(format!("{name} {col}"), format!("{n}, table {name}: {d}"));
            }
        }
        if filled >= 4 {
            o.nontrivial.insert(content(&v["steps"]));
        }
    }
    for name in tables::TABLES {
        if sc.files.iter().filter(|f| is_file(f)).count() == known.len()
            && let Some(r) = t[name].iter().find(|r| !known.contains(&r["ext_fs_id"].as_u64().unwrap_or(u64::MAX)))
        {
            return bad(format!("{name} foreign"), format!("{name} has a row of no exported match: {}", short(r)));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ S16
fn mk16(r: &mut Rng, _i: u64, th: bool) -> Scenario {
    let mut sc = Scenario::new("S16", 0);
    let mut dirs_: Vec<Vec<u8>> = vec![ROOT.as_bytes().to_vec()];
    for _ in 0..r.skewed(if th { 20 } else { 9 }) {
        let mut d = r.pick(&dirs_).clone();
        d.push(b'/');
        d.extend_from_slice(*r.pick(&[b"d".as_slice(), b"sub.SC2Replay", b"\xff\xfe", "ü x".as_bytes(), b".hid"]));
        if r.chance(1, 3) {
            d.extend(r.below(10).to_string().as_bytes());
        }
        dirs_.push(d);
    }
    let mut used = BTreeSet::new();
    for d in &dirs_ {
        if used.insert(d.clone()) {
            sc.files.push(FileSpec::new(d, Kind::Dir));
        }
    }
    for _ in 0..r.skewed(if th { 60 } else { 25 }) {
        let mut p = r.pick(&dirs_).clone();
        p.push(b'/');
        let stem: &[u8] = r.pick(&[b"a".as_slice(), b"b.c", b"\xfe", "ö".as_bytes(), b"", b".x"]);
        p.extend(stem);
        p.extend(r.below(30).to_string().as_bytes());
        if r.chance(1, 25) {
            let k = p.iter().rposition(|c| *c == b'/').unwrap();
            p.truncate(k + 1);
        }
        let ext: &[u8] = r.pick(&[
            b".SC2Replay".as_slice(),
            b".SC2Replay",
            b".SC2Replay",
            b".SC2Replay",
            b".sc2replay",
            b".SC2Replay.bak",
            b".SC2ReplayX",
            b"",
            b".SC2Map",
        ]);
        p.extend(ext);
        if p.ends_with(b"/") || !used.insert(p.clone()) {
            continue;
        }
        let k = match r.below(14) {
            0 => Kind::Special,
            1 => Kind::Link(b"/sim/nowhere".to_vec()),
            2 => Kind::Link(b"/sim/real".to_vec()),
            _ => Kind::Raw(vec![0; r.idx(4)]),
        };
        sc.files.push(FileSpec::new(p, k));
    }
    sc.files.push(FileSpec::new("/sim/real", Kind::Raw(vec![1])));
    sc.faults.dir_order = if r.chance(3, 4) { r.next() | 1 } else { 0 };
    sc.faults.dt_unknown = r.chance(1, 3);
    let max = if r.chance(1, 2) { 1000 } else { r.idx(12) };
    let depth = if r.chance(1, 2) { 10 } else { r.idx(5) };
    sc.p = json!({"max": max, "depth": depth});
    match r.below(5) {
        0 => {
            let d = r.pick(&dirs_).clone();
            let f = if r.chance(1, 2) {
                Fault { op: Op::OpenDir, path: d, nth: None, act: Action::Errno(*r.pick(&[13, EIO, 24, 12])) }
            } else {
                Fault { op: Op::ReadDir, path: d, nth: Some(r.below(3)), act: Action::Errno(*r.pick(&[EIO, 116])) }
            };
            sc.faults.list.push(f);
        }
        1 => {
            // an entry goes away between listing and looking
            let fs: Vec<Vec<u8>> = sc.files.iter().filter(|f| is_file(f) && f.path.starts_with(ROOT.as_bytes())).map(|f| f.path.clone()).collect();
            if !fs.is_empty() {
                sc.faults.list.push(Fault { op: Op::Stat, path: r.pick(&fs).clone(), nth: Some(r.below(2)), act: Action::Vanish });
            }
        }
        _ => {}
    }
    if r.chance(1, 6) {
        sc.faults.probs.push(Prob { op: Op::ReadDir, prefix: "/sim".into(), per100k: 30_000, act: Action::Delay(1_000_000_000) });
    }
    sc
}
fn ext_of(p: &[u8]) -> Option<&[u8]> {
    let n = &p[p.iter().rposition(|c| *c == b'/').map(|k| k + 1).unwrap_or(0)..];
    let k = n.iter().rposition(|c| *c == b'.')?;
    (k > 0).then(|| &n[k + 1..])
}
fn ck16(sc: &Scenario, o: &mut Obs) -> Result<(), Bad> {
    let img = sc.image();
    let (max, depth) = (sc.p["max"].as_u64().unwrap_or(1000) as usize, sc.p["depth"].as_u64().unwrap_or(10) as usize);
    let b = go(sc, o, &How::dirty(sc), &img, &[Call::Find { path: rd(ROOT), max, depth }])?;
    b.sound()?;
    let (mut must, mut may): (BTreeSet<String>, BTreeSet<String>) = Default::default();
    let gone: BTreeSet<&Vec<u8>> = b.run.st.delivered.iter().filter(|f| f.act == Action::Vanish).map(|f| &f.path).collect();
    for (p, n) in &img.0 {
        if !p.starts_with(b"/sim/r/") || ext_of(p) != Some(b"SC2Replay") {
            continue;
        }
        if p[ROOT.len() + 1..].iter().filter(|c| **c == b'/').count() >= depth {
            continue;
        }
        let name = crate::sim::fs::bstr::enc(p);
        match n {
            Node::File(_) => {
                may.insert(name.clone());
                if !gone.contains(p) {
                    must.insert(name);
                }
            }
            Node::Link(t) if matches!(img.0.get(t), Some(Node::File(_))) => {
                may.insert(name);
            }
            _ => {}
        }
    }
    let failed = b.run.st.delivered.iter().any(|f| matches!(f.op, Op::OpenDir | Op::ReadDir) && hard(f));
    if must.len() >= 2 || !b.run.st.delivered.is_empty() {
        o.nontrivial.insert(b.run.st.trace);
    }
    if failed {
        o.hit("listing failed");
        return match b.ok(0) {
            Some(v) => bad("listing error swallowed", format!("a directory could not be listed, but the search returned {}", short(v))),
            None => Ok(()),
        };
    }
    let v = need(&b, 0, "search")?;
    let got: Vec<String> = v.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
    let set: BTreeSet<String> = got.iter().cloned().collect();
    if set.len() != got.len() {
        return bad("twice", format!("a replay is returned twice: {got:?}"));
    }
    if let Some(x) = set.iter().find(|x| !may.contains(*x)) {
        return bad("foreign", format!("{x} is no replay within the limits"));
    }
    if got.len() > max {
        return bad("too many", format!("{} files returned, at most {max} were asked for", got.len()));
    }
    o.hit(if may.len() > max { "limited" } else { "all" });
    let miss: Vec<&String> = must.iter().filter(|x| !set.contains(*x)).collect();
    if !miss.is_empty() && got.len() < max {
        return bad("missed", format!("{} of {} returned, missing {:?}", got.len(), must.len(), miss[0]));
    }
    Ok(())
}

// ------------------------------------------------------------------ S17
const BAL: &str = "/sim/bal";
fn mk17(r: &mut Rng, _i: u64, th: bool) -> Scenario {
    let mut sc = Scenario::new("S17", 0);
    let mut vs: Vec<u32> = (0..1 + r.idx(3)).map(|_| *r.pick(&VERSIONS)).collect();
    vs.sort();
    vs.dedup();
    let per = 1 + r.skewed(if th { 30 } else { 10 }) as usize;
    sc.balance = gen_balance(r, &vs, per, true);
    // unusual but legal names
    if r.chance(1, 3) {
        let l = sc.balance.as_array_mut().unwrap();
        let n = *r.pick(&["Zoë", "A.B", "X.json", "with space", "-", "json", ".json.json"]);
        let mut e = l[0].clone();
        e[1] = json!(n);
        e[2]["@id"] = json!(n);
        l.push(e);
    }
    sc.files.push(FileSpec::new(BAL, Kind::Dir));
    sc.faults.seed = r.next();
    let pre = BAL.to_string();
    if r.chance(1, 2) {
        sc.faults.probs.push(Prob { op: Op::Write, prefix: pre.clone(), per100k: *r.pick(&[5_000u32, 50_000]), act: Action::Short(*r.pick(&[1usize, 10, 100])) });
    }
    if r.chance(1, 3) {
        sc.faults.probs.push(Prob { op: Op::Write, prefix: pre.clone(), per100k: 10_000, act: Action::Errno(EINTR) });
    }
    if r.chance(1, 2) {
        mild_reads(r, &mut sc.faults, false);
    }
    sc.faults.dir_order = r.next() | 1;
    sc.faults.dt_unknown = r.chance(1, 4);
    let e = *r.pick(&[28, EIO, 122]);
    sc.shape = match r.below(7) {
        0 => {
            let (op, nth) = *r.pick(&[(Op::Create, 3), (Op::Mkdir, 1), (Op::Write, 200), (Op::Write, 2000), (Op::Write, 20)]);
            sc.faults.list.push(Fault { op, path: vec![], nth: Some(r.below(nth)), act: Action::Errno(e) });
            "write fails"
        }
        1 => {
            sc.faults.list.push(Fault { op: Op::Write, path: vec![], nth: Some(r.skewed(2000)), act: Action::Torn(r.skewed(50) as usize, e) });
            "write torn"
        }
        2 => {
            sc.p = json!({"space_permille": r.below(1000)});
            "disk full"
        }
        3 | 4 => {
            sc.p = json!({"at_permille": r.below(1000)});
            sc.faults.crash_bytes = r.skewed(30);
            "killed"
        }
        5 => {
            let (op, nth) = *r.pick(&[(Op::Open, 6), (Op::Read, 12), (Op::OpenDir, 3), (Op::ReadDir, 3)]);
            sc.p = json!({"read_fault": Fault { op, path: vec![], nth: Some(r.below(nth)), act: Action::Errno(*r.pick(&[EIO, 13, 24])) }});
            "read fails"
        }
        _ => "whole",
    }
    .into();
    sc
}
/// a == b, where null and absent are the same
fn like(a: &Value, b: &Value) -> Option<String> {
    fn clean(v: &Value) -> Value {
        match v {
            Value::Object(m) => Value::Object(m.iter().filter(|(_, x)| !x.is_null()).map(|(k, x)| (k.clone(), clean(x))).collect()),
            Value::Array(a) => a.iter().map(clean).collect::<Vec<_>>().into(),
            Value::Number(n) => json!(n.as_f64()),
            v => v.clone(),
        }
    }
    diff(&clean(a), &clean(b))
}
fn bal_units(v: &Value) -> BTreeMap<(u64, String), Value> {
    v.as_array()
        .into_iter()
        .flatten()
        .map(|e| ((e[0].as_u64().unwrap_or(0), e[1].as_str().unwrap_or("").to_string()), e[2].clone()))
        .collect()
}
fn ck17(sc: &Scenario, o: &mut Obs) -> Result<(), Bad> {
    let img = sc.image();
    let want = bal_units(&sc.balance);
    let mut h = How::dirty(sc).disk();
    if sc.p.get("space_permille").is_some() || sc.p.get("at_permille").is_some() {
        let a = go(sc, o, &How::dirty(sc).disk(), &img, &[Call::BalWrite(rd(BAL))])?;
        if let Some(k) = sc.p["space_permille"].as_u64() {
            let n: u64 = disk(&a)?.0.values().map(|n| if let Node::File(b) = n { b.len() as u64 } else { 0 }).sum();
            h.faults.disk_space = Some(n * k / 1000);
        }
        if let Some(k) = sc.p["at_permille"].as_u64() {
            h.faults.crash_at = Some(a.run.st.io_ops * k / 1000);
        }
    }
    let w = go(sc, o, &h, &img, &[Call::BalWrite(rd(BAL))])?;
    let killed = w.run.end == End::Crash;
    if want.len() >= 2 {
        o.nontrivial.insert(w.run.st.trace);
    }
    let mut success = false;
    if !killed {
        w.sound()?;
        let hit = w.run.st.delivered.iter().any(hard);
        success = w.ok(0).is_some();
        if !success && !hit {
            return bad("write fails", format!("writing fails although nothing failed: {:?}", w.err(0)));
        }
        if success && hit {
            o.hit("success after an error");
        }
    }
    o.hit(if killed {
        "killed"
    } else if success {
        "written"
    } else {
        "write error"
    });
    let mut h = How::clean(sc);
    h.faults = sc.faults.clone();
    h.faults.list.clear();
    h.faults.probs.retain(|p| p.op == Op::Read || p.op == Op::Open);
    if let Ok(f) = serde_json::from_value::<Fault>(sc.p["read_fault"].clone()) {
        h.faults.list.push(f);
    }
    let r = go(sc, o, &h, &disk(&w)?.clone(), &[Call::BalRead(rd(BAL))])?;
    r.sound()?;
    let read_failed = r.run.st.delivered.iter().any(hard);
    match r.ok(0) {
        None => {
            o.hit("read error");
            if success && !read_failed {
                return bad("unreadable", format!("what was written successfully cannot be read: {:?}", r.err(0)));
            }
        }
        Some(v) => {
            if read_failed {
                return bad("read error swallowed", format!("a read failed, but {} units were returned", v.as_array().map(|a| a.len()).unwrap_or(0)));
            }
            let got = bal_units(v);
            for (k, u) in &got {
                match want.get(k) {
                    None => return bad("foreign unit", format!("{k:?} was never written")),
                    Some(x) => {
                        if let Some(d) = like(x, u) {
                            return bad("unit differs", format!("{k:?} reads back different: {d}"));
                        }
                    }
                }
            }
            if success && let Some(k) = want.keys().find(|k| !got.contains_key(*k)) {
                return bad("unit lost", format!("writing succeeded, but {k:?} is not there"));
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ S18
fn xml_of(v: &Value, tag: &str, out: &mut String) {
    let esc = |s: &str| s.replace('&', "&amp;").replace('<', "&lt;").replace('"', "&quot;");
    let Some(m) = v.as_object() else { return };
    out.push_str(&format!("<{tag}"));
    for (k, x) in m {
        if let Some(a) = k.strip_prefix('@')
            && !x.is_null()
        {
            let s = x.as_str().map(|s| s.to_string()).unwrap_or_else(|| x.to_string());
            out.push_str(&format!(" {a}=\"{}\"", esc(&s)));
        }
    }
    let mut kids = String::new();
    for (k, x) in m {
        if k.starts_with('@') {
            continue;
        }
        match x {
            Value::Array(a) => {
                for e in a {
                    xml_of(e, k, &mut kids);
                }
            }
            Value::Object(_) => xml_of(x, k, &mut kids),
            _ => {}
        }
    }
    if kids.is_empty() {
        out.push_str("/>");
    } else {
        out.push('>');
        out.push_str(&kids);
        out.push_str(&format!("</{tag}>"));
    }
}
fn mk18(r: &mut Rng, _i: u64, th: bool) -> Scenario {
    let mut sc = Scenario::new("S18", 0);
    let mut vs: Vec<u32> = (0..1 + r.idx(3)).map(|_| *r.pick(&VERSIONS)).collect();
    vs.sort();
    vs.dedup();
    let per = 1 + r.skewed(if th { 25 } else { 8 }) as usize;
    sc.balance = gen_balance(r, &vs, per, true);
    sc.files.push(FileSpec::new("/sim/x", Kind::Dir));
    let mut k = 0;
    for e in sc.balance.as_array().unwrap().clone() {
        let mut s = String::new();
        if r.chance(1, 2) {
            s.push_str("<?xml version=\"1.0\" encoding=\"utf-8\"?>\n");
        }
        xml_of(&e[2], "unit", &mut s);
        k += 1;
        let name = if r.chance(1, 2) { format!("{}.xml", e[1].as_str().unwrap()) } else { format!("{k}é.xml") };
        sc.files.push(FileSpec::new(format!("/sim/x/{}/BalanceData/{name}", e[0]), Kind::Text(s)));
    }
    for j in 0..r.idx(4) {
        let v = *r.pick(&vs);
        let (p, k) = match r.below(8) {
            0 => (format!("/sim/x/{v}/BalanceData/bad{j}.xml"), Kind::Text("<unit id=\"Q\"><meta".into())),
            1 => (format!("/sim/x/{v}/BalanceData/bad{j}.xml"), Kind::Raw(vec![0xff, 0xfe, b'<'])),
            2 => (format!("/sim/x/{v}/BalanceData/empty{j}.xml"), Kind::Raw(vec![])),
            3 => (format!("/sim/x/{v}/BalanceData/readme{j}.txt"), Kind::Text("<unit id=\"Q\"/>".into())),
            4 => (format!("/sim/x/{v}/BalanceData/dir{j}.xml/in.xml"), Kind::Text("x".into())),
            5 => (format!("/sim/x/notes{j}/BalanceData/U.xml"), Kind::Text("x".into())),
            6 => (format!("/sim/x/{v}/other{j}.xml"), Kind::Text("x".into())),
            _ => (format!("/sim/x/loose{j}.xml"), Kind::Text("x".into())),
        };
        sc.files.push(FileSpec::bad(p, k));
    }
    mild_reads(r, &mut sc.faults, false);
    sc.faults.dir_order = r.next() | 1;
    sc.faults.dt_unknown = r.chance(1, 4);
    if r.chance(1, 3) {
        let (op, nth) = *r.pick(&[(Op::Open, 6), (Op::Read, 12), (Op::OpenDir, 3), (Op::ReadDir, 3)]);
        sc.faults.list.push(Fault { op, path: vec![], nth: Some(r.below(nth)), act: Action::Errno(*r.pick(&[EIO, 13, 24])) });
    }
    sc
}
fn ck18(sc: &Scenario, o: &mut Obs) -> Result<(), Bad> {
    let b = go(sc, o, &How::dirty(sc), &sc.image(), &[Call::XmlLoad(rd("/sim/x"))])?;
    b.sound()?;
    // units whose file is still part of the scenario
    let mut want = BTreeMap::new();
    for (k, u) in bal_units(&sc.balance) {
        let mut s = String::new();
        xml_of(&u, "unit", &mut s);
        let pre = format!("/sim/x/{}/", k.0);
        if sc.files.iter().any(|f| f.path.starts_with(pre.as_bytes()) && matches!(&f.kind, Kind::Text(t) if t.ends_with(&s))) {
            want.insert(k, u);
        }
    }
    if want.len() >= 2 {
        o.nontrivial.insert(b.run.st.trace);
    }
    let failed = b.run.st.delivered.iter().any(hard);
    o.hit(if failed { "failed operation" } else { "complete" });
    match b.ok(0) {
        None if failed => Ok(()),
        None => bad("load fails", format!("loading fails although nothing failed: {:?}", b.err(0))),
        Some(v) => {
            if failed {
                return bad("error swallowed", format!("a read failed, but {} units were returned", v.as_array().map(|a| a.len()).unwrap_or(0)));
            }
            let got = bal_units(v);
            for (k, u) in &want {
                match got.get(k) {
                    None => return bad("unit lost", format!("{k:?} was not loaded")),
                    Some(x) => {
                        if let Some(d) = like(u, x) {
                            return bad("unit differs", format!("{k:?}: {d}"));
                        }
                    }
                }
            }
            match got.keys().find(|k| !want.contains_key(*k)) {
                Some(k) => bad("foreign unit", format!("{k:?} is in no file")),
                None => Ok(()),
            }
        }
    }
}

// ------------------------------------------------------------------ S19, S20
fn unknown_event(r: &mut Rng) -> Vec<u8> {
    let mut w = BitW::default();
    w.put(0, 2);
    w.put(0, 6);
    w.put(r.below(16), 5);
    w.put(*r.pick(&[120u64, 121, 122, 123, 124, 125, 126, 127]), 7);
    w.align();
    w.buf
}
/// Damages one stream of a match; None if it has no records.
fn cut(r: &mut Rng, m: &Match, msgs: bool) -> Option<StreamDamage> {
    let stream = if msgs { r.below(3) } else { r.below(2) } as u8;
    let recs = m.records(stream);
    if recs.is_empty() {
        return None;
    }
    let rec = if r.chance(1, 3) { r.idx(recs.len().min(4)) } else { r.idx(recs.len()) };
    if r.chance(2, 3) || stream == 2 {
        return Some(StreamDamage { stream, rec, cut: Some(r.idx(recs[rec].len())), bytes: vec![] });
    }
    let bytes = if stream == 0 { vec![*r.pick(&[0xffu8, 0x0a, 0x55])] } else { unknown_event(r) };
    Some(StreamDamage { stream, rec, cut: None, bytes })
}
/// Puts text that is not UTF-8 into a record of the stream.
fn not_text(r: &mut Rng, m: &mut Match, stream: u8) -> Option<usize> {
    let evs = match stream {
        0 => &mut m.tracker,
        1 => &mut m.game,
        _ => &mut m.msgs,
    };
    let fields = ["unit_type_name", "upgrade_type_name", "creator_ability_name", "m_string"];
    let mut c = vec![];
    for (k, e) in evs.iter().enumerate() {
        if let V::S(fs) = &e.v {
            for (n, v) in fs {
                let text = matches!(v, V::Y(_)) || matches!(v, V::O(Some(x)) if matches!(**x, V::Y(_)));
                if fields.contains(&n.as_str()) && text {
                    c.push((k, n.clone()));
                }
            }
        }
    }
    if c.is_empty() {
        return None;
    }
    let (k, n) = r.pick(&c).clone();
    let b = V::Y(r.pick(&[vec![0xff, b'a'], vec![b'a', 0xc3], vec![0xed, 0xa0, 0x80]]).clone());
    let v = evs[k].v.fm(&n);
    *v = if matches!(v, V::O(_)) { V::some(b) } else { b };
    Some(k)
}
fn mk19(r: &mut Rng, _i: u64, th: bool) -> Scenario {
    let mut sc = Scenario::new("S19", 0);
    for _ in 0..30 {
        let mut m = hist(r, th);
        let st = r.below(2) as u8;
        if r.chance(1, 6) {
            if let Some(rec) = not_text(r, &mut m, st) {
                sc.p = json!({"stream": st, "rec": rec});
                sc.shape = "not text".into();
                sc.files.push(FileSpec::new(A, Kind::Match(Box::new(m))));
                break;
            }
        } else if let Some(d) = cut(r, &m, false) {
            sc.shape = if d.cut.is_some() { "cut" } else { "undecodable" }.into();
            sc.files.push(FileSpec::new(A, Kind::Cut(Box::new(m), d)));
            break;
        }
    }
    some_mild(r, &mut sc, false);
    sc
}
fn ck19(sc: &Scenario, o: &mut Obs) -> Result<(), Bad> {
    let (m, st, rec) = match sc.files.first().map(|f| &f.kind) {
        Some(Kind::Cut(m, d)) => (m, d.stream, d.rec),
        Some(Kind::Match(m)) => {
            // the record is the first one that is not text
            let st = sc.p["stream"].as_u64().unwrap_or(0) as u8;
            let evs = if st == 0 { &m.tracker } else { &m.game };
            let k = evs.iter().position(|e| match &e.v {
                V::S(f) => f.iter().any(|(_, v)| match v {
                    V::Y(b) => std::str::from_utf8(b).is_err(),
                    V::O(Some(b)) => matches!(&**b, V::Y(b) if std::str::from_utf8(b).is_err()),
                    _ => false,
                }),
                _ => false,
            });
            match k {
                Some(k) => (m, st, k),
                None => return Ok(()),
            }
        }
        _ => return Ok(()),
    };
    let b = go(sc, o, &How::dirty(sc), &sc.image(), &[Call::Timeline(tl(A, false))])?;
    b.sound()?;
    let v = need(&b, 0, "timeline of a damaged stream")?;
    let (mut t, mut g) = (model::expect(&m.tracker, 0), model::expect(&m.game, 1));
    let l = if st == 0 { &mut t } else { &mut g };
    let n = l.len();
    // text that is not UTF-8 may also be delivered in some replacement form
    let mine: Vec<&Value> = v["steps"]
        .as_array()
        .unwrap()
        .iter()
        .filter_map(|s| model::item(&s[0]))
        .filter(|i| i.tracker == (st == 0))
        .map(|i| i.ev)
        .collect();
    let k = l.iter().filter(|e| e.rec < rec).count();
    if sc.shape == "not text" && mine.len() > k {
        o.hit("replaced text");
        l[k].ev = mine[k].clone();
    } else {
        l.retain(|e| e.rec < rec);
    }
    if !l.is_empty() && l.len() < n {
        o.nontrivial.insert(mix(content(&v["steps"]) ^ n as u64));
    }
    o.hit(&sc.shape);
    // events behind the damage are lost, so loops of the two streams need not interleave fully
    if let Some((s, w)) = model::check_order(&model::lobby(m), &t, &g, v["steps"].as_array().unwrap()) {
        return bad(s, format!("stream {st} damaged at record {rec} ({}): {w}", sc.shape));
    }
    if v["tail"] != json!(0) {
        return bad("after the end", format!("{} more items after the end", v["tail"]));
    }
    Ok(())
}
fn mk20(r: &mut Rng, i: u64, th: bool) -> Scenario {
    let mut sc = Scenario::new("S20", 0);
    let (f, big) = one_replay(r, th, if i < 3 { 1 } else { 200 });
    sc.files.push(f);
    if let Kind::Match(m) = sc.files[0].kind.clone() {
        let mut m = *m;
        if r.chance(1, 2)
            && let Some(d) = cut(r, &m, true)
        {
            let n = d.cut;
            sc.shape = if n.is_some() { "cut" } else { "undecodable" }.into();
            sc.files[0].kind = Kind::Cut(Box::new(m), d);
        } else if r.chance(1, 6) {
            let st = r.below(3) as u8;
            if not_text(r, &mut m, st).is_some() {
                sc.shape = "not text".into();
                sc.p = json!({"stream": st});
                sc.files[0].kind = Kind::Match(Box::new(m));
            }
        }
    }
    some_mild(r, &mut sc, big);
    sc
}
fn has_bad_text(evs: &[Ev]) -> bool {
    fn any(v: &V) -> bool {
        match v {
            V::Y(b) => std::str::from_utf8(b).is_err(),
            V::S(f) => f.iter().any(|x| any(&x.1)),
            V::O(Some(x)) => any(x),
            V::C(_, x) => any(x),
            V::L(l) => l.iter().any(any),
            _ => false,
        }
    }
    evs.iter().any(|e| any(&e.v))
}
fn ck20(sc: &Scenario, o: &mut Obs) -> Result<(), Bad> {
    let m = the_file(sc)?;
    let b = go(sc, o, &How::dirty(sc), &sc.image(), &[Call::Tracker(rd(A)), Call::Game(rd(A)), Call::Msgs(rd(A))])?;
    b.sound()?;
    o.nontrivial.insert(mix(content(&json!(b.res))));
    let dmg = match &sc.files[0].kind {
        Kind::Cut(_, d) => Some(d.clone()),
        _ => None,
    };
    for (k, evs, what) in [(0u8, &m.tracker, "tracker"), (1, &m.game, "player"), (2, &m.msgs, "message")] {
        let want = model::expect(evs, k);
        let got = b.ok(k as usize);
        let broken = match &dmg {
            Some(d) if d.stream == k => {
                // a cut between two records is not visible
                !(d.cut == Some(0)) && d.rec < evs.len()
            }
            _ => false,
        };
        let short_ok = matches!(&dmg, Some(d) if d.stream == k && d.cut == Some(0));
        if broken {
            o.hit(&format!("{what} damaged"));
            if let Some(v) = got {
                return bad(
                    format!("{what}: shortened"),
                    format!("the {what} stream is damaged ({dmg:?}), but the reader returned {} of {} records", v.as_array().map(|a| a.len()).unwrap_or(0), want.len()),
                );
            }
            continue;
        }
        let want: Vec<_> = match &dmg {
            Some(d) if short_ok => want.into_iter().filter(|e| e.rec < d.rec).collect(),
            _ => want,
        };
        let empty = evs.is_empty() || matches!(&dmg, Some(d) if short_ok && d.rec == 0);
        let not_text = has_bad_text(evs);
        let Some(v) = got else {
            if empty || not_text {
                o.hit(&format!("{what}: error"));
                continue;
            }
            return bad(format!("{what}: fails"), format!("the {what} stream is whole but the reader fails: {:?}", b.err(k as usize)));
        };
        let got = v.as_array().unwrap();
        if got.len() != want.len() {
            return bad(format!("{what}: count"), format!("{} {what} records returned, {} recorded", got.len(), want.len()));
        }
        if not_text {
            o.hit("not text, all returned");
            continue;
        }
        for (n, (w, g)) in want.iter().zip(got).enumerate() {
            if let Some((s, t)) = same_record(k, w, g) {
                return bad(format!("{what}: {s}"), format!("{what} record {n}: {t}"));
            }
        }
        // The loop of a record may be given as its recorded delta, as the delta since the record
        // returned before it, or as the game loop, but in one way for the whole list.
        let raw = |n: usize| evs[want[n].rec].d as i64;
        let since = |n: usize| want[n].lo - if n == 0 { 0 } else { want[n - 1].lo };
        let abs = |n: usize| want[n].lo;
        let ways: [&dyn Fn(usize) -> i64; 3] = [&raw, &since, &abs];
        let off = |f: &dyn Fn(usize) -> i64| (0..got.len()).find(|n| got[*n]["delta"].as_i64() != Some(f(*n)));
        if ways.iter().all(|f| off(*f).is_some()) {
            let n = off(&raw).unwrap();
            return bad(
                format!("{what}: loop"),
                format!("{what} record {n}: recorded {} loops after the one before, returned with delta {}", raw(n), got[n]["delta"]),
            );
        }
    }
    Ok(())
}
/// One returned record against the recorded one.
fn same_record(k: u8, w: &model::Exp, g: &Value) -> Option<(String, String)> {
    let (user, event) = match k {
        0 => (None, &g["event"]),
        1 => (Some(&g["user_id"]), &g["event"]),
        _ => (Some(&g["user_id"]), &g["event"]["EChat"]),
    };
    if let Some(u) = user
        && u.as_i64() != Some(w.user)
    {
        return Some(("user".into(), format!("recorded for user {}, returned for {u}", w.user)));
    }
    let (a, b) = (model::plain(w.ev.clone()), model::plain(event.clone()));
    if a != b {
        let d = diff(&a, &b).unwrap_or_default();
        return Some(("fields".into(), format!("{d}; recorded {}, returned {}", short(&a), short(&b))));
    }
    None
}

// ------------------------------------------------------------------ S21
fn mk21(r: &mut Rng, i: u64, th: bool) -> Scenario {
    let mut sc = Scenario::new("S21", 0);
    if i < 3 {
        let a = assets();
        if let Some(n) = a.get(i as usize) {
            sc.files.push(FileSpec::new(A, Kind::Asset(n.clone())));
            some_mild(r, &mut sc, true);
            return sc;
        }
    }
    let n = 1 + r.idx(if th { 8 } else { 5 });
    let names = player_names(r, n);
    let title = r.pick(&["", "Map", "Oxide LE", "地図", "A/B\\C"]).to_string();
    let v = version(r);
    let mut m = small(r, 2, &names, &title, v);
    // the other fields of the details
    let d = &mut m.details;
    d.set("m_difficulty", V::y(r.pick(&["", "d"])));
    d.set("m_description", V::y(r.pick(&["", "some text", "é"])));
    d.set("m_image_file_path", V::y(r.pick(&["", "p"])));
    d.set("m_map_file_name", V::y(r.pick(&["", "m"])));
    d.set("m_campaign_index", V::I(r.below(256) as i64));
    d.set("m_default_difficulty", V::I(r.skewed(u32::MAX as u64) as i64));
    d.set("m_mini_save", V::B(r.chance(1, 2)));
    d.set("m_mod_paths", V::opt(r.chance(1, 2).then(|| V::L((0..r.idx(3)).map(|k| V::y(&format!("mod{k}"))).collect()))));
    d.set("m_thumbnail", V::s(&[("m_file", V::y(r.pick(&["", "Minimap.tga", "x.tga"])))]));
    if r.chance(1, 10) {
        d.set("m_player_list", V::O(None));
    }
    if r.chance(1, 10) {
        d.set("m_cache_handles", V::O(None));
    }
    if r.chance(1, 12) {
        let mut sig = b"StarCraft II replay\x1b11".to_vec();
        match r.below(5) {
            0 => sig = b"Heroes of the Storm replay\x1b11".to_vec(),
            1 => sig.truncate(r.idx(sig.len())),
            2 => sig.push(*r.pick(b"1\0 ")),
            3 => *sig.last_mut().unwrap() = *r.pick(b"02"),
            _ => {
                let k = r.idx(sig.len());
                sig[k] ^= 1 << r.below(7);
            }
        }
        m.header.set("m_signature", V::Y(sig));
        sc.shape = "foreign signature".into();
        sc.files.push(FileSpec::new(A, Kind::Match(Box::new(m))));
        some_mild(r, &mut sc, false);
        return sc;
    }
    let m = Box::new(m);
    if r.chance(1, 3) {
        let part = 3 + r.below(3) as u8;
        sc.shape = ["set-up cut", "details cut", "header cut"][part as usize - 3].into();
        let len = std::cell::Cell::new(0usize);
        m.bytes_with(|p, b| {
            if p == part {
                len.set(b.len());
            }
        });
        let at = if r.chance(1, 3) { len.get().saturating_sub(1 + r.idx(4)) } else { r.idx(len.get().max(1)) };
        sc.files.push(FileSpec::new(A, Kind::Streams(m, vec![(part, vec![Damage::Trunc(at)])])));
    } else {
        sc.files.push(FileSpec::new(A, Kind::Match(m)));
    }
    some_mild(r, &mut sc, false);
    sc
}
/// An empty text of the bit-packed data is given as one NUL (the unit tests of the library fix
/// that); it is taken for the empty text.
fn no_nul(mut v: Value) -> Value {
    match &mut v {
        Value::String(s) if s == "\0" => s.clear(),
        Value::Array(l) => l.iter_mut().for_each(|x| *x = no_nul(x.take())),
        Value::Object(m) => m.values_mut().for_each(|x| *x = no_nul(x.take())),
        _ => {}
    }
    v
}
fn ck21(sc: &Scenario, o: &mut Obs) -> Result<(), Bad> {
    let (m, part) = match sc.files.first().map(|f| &f.kind) {
        None => return Ok(()),
        Some(Kind::Streams(m, d)) => (m.as_ref().clone(), d.first().map(|d| d.0)),
        _ => (the_file(sc)?, None),
    };
    if sc.shape == "foreign signature" {
        o.hit(&sc.shape);
        let calls = [Call::Init(rd(A), 7), Call::Details(rd(A)), Call::Lobby(rd(A)), Call::Users(rd(A), 9), Call::Tracker(rd(A)), Call::Game(rd(A)), Call::Msgs(rd(A))];
        let b = go(sc, o, &How::dirty(sc), &sc.image(), &calls)?;
        b.sound()?;
        o.nontrivial.insert(mix(content(&json!(b.res))));
        for (k, what) in ["set-up", "details", "lobby", "users", "tracker events", "player events", "messages"].iter().enumerate() {
            if let Some(v) = b.ok(k) {
                return bad(
                    "signature",
                    format!("the {what} of a file whose signature is {:?} were read: {}", m.header.f("m_signature"), short(v)),
                );
            }
        }
        return Ok(());
    }
    o.hit(if part.is_some() { &sc.shape } else { "whole" });
    let calls = [Call::Header(rd(A)), Call::Init(rd(A), 7), Call::Details(rd(A)), Call::Lobby(rd(A)), Call::Users(rd(A), 9)];
    let b = go(sc, o, &How::dirty(sc), &sc.image(), &calls)?;
    b.sound()?;
    o.nontrivial.insert(mix(content(&json!(b.res))));
    let hurt = |p: u8| part == Some(p) || part == Some(5);
    // header
    match b.ok(0) {
        None if hurt(5) => {}
        None => return bad("header fails", format!("the header can not be read: {:?}", b.err(0))),
        Some(h) => {
            let h = h.as_str().unwrap_or_default();
            let v = m.header.f("m_version");
            for k in ["m_flags", "m_major", "m_minor", "m_revision", "m_build", "m_base_build"] {
                let want = format!(" {k}: {}", v.f(k).i());
                if !h.contains(&want) {
                    return bad("header", format!("the header does not say{want}: {h}"));
                }
            }
            for k in ["m_type", "m_elapsed_game_loops", "m_data_build_num"] {
                let want = format!(" {k}: {}", m.header.f(k).i());
                if !h.contains(&want) {
                    return bad("header", format!("the header does not say{want}: {h}"));
                }
            }
        }
    }
    let setup = no_nul(model::setup_json(&m));
    match b.ok(1) {
        None if hurt(3) => {}
        None => return bad("set-up fails", format!("the set-up data can not be read: {:?}", b.err(1))),
        Some(v) => {
            let got = no_nul(v["sync_lobby_state"].clone());
            if let Some(d) = diff(&setup, &got) {
                return bad("set-up", format!("recorded against read set-up: {d}"));
            }
            if v["ext_fs_id"] != json!(7) {
                return bad("identity", format!("the replay was read as number {}", v["ext_fs_id"]));
            }
        }
    }
    match b.ok(4) {
        None if hurt(3) => {}
        None => return bad("users fail", format!("the rows of the users can not be made: {:?}", b.err(4))),
        Some(v) => {
            let sha = tables::sha256(sc.image().get(A).unwrap_or_default());
            let want: Vec<Value> = setup["user_initial_data"]
                .as_array()
                .into_iter()
                .flatten()
                .enumerate()
                .map(|(k, u)| {
                    json!({"ext_fs_id": 9, "ext_fs_sha256": sha, "ext_fs_file_name": A, "user_index": k, "name": u["name"],
                        "clan_tag": u["clan_tag"].as_str().unwrap_or(""), "scaled_rating": u["scaled_rating"]})
                })
                .collect();
            if let Some(d) = diff(&json!(want), &no_nul(v.clone())) {
                return bad("users", format!("recorded against rows of users: {d}"));
            }
        }
    }
    let mut det = no_nul(model::details_json(&m));
    let whole = match b.ok(2) {
        None if hurt(4) => None,
        None => return bad("details fail", format!("the details can not be read: {:?}", b.err(2))),
        Some(v) => {
            let mut got = no_nul(v.clone());
            let date = got.as_object_mut().unwrap().remove("ext_datetime");
            got.as_object_mut().unwrap().remove("ext_fs_id");
            // an absent optional value may be left out of the record
            if det.get("restart_as_transition_map").is_none() {
                det["restart_as_transition_map"] = Value::Null;
            }
            if let Some(d) = diff(&det, &got) {
                return bad("details", format!("recorded against read details: {d}"));
            }
            date
        }
    };
    match b.ok(3) {
        None if part.is_some() => {}
        None => return bad("lobby fails", format!("the lobby can not be read: {:?}", b.err(3))),
        Some(v) => {
            let want = model::joined(&m);
            let v = no_nul(v.clone());
            let got = v.as_array().unwrap();
            if got.len() != want.len() {
                return bad("lobby", format!("{} players joined with their slots, {} recorded", got.len(), want.len()));
            }
            for ((p, s, k), g) in want.iter().zip(got) {
                // the users are recorded by user id
                let u = s.f("m_user_id").oi().map_or(&Value::Null, |u| &setup["user_initial_data"][u as usize]);
                let pd = det["player_list"].as_array().unwrap().iter().find(|x| x["working_set_slot_id"].as_i64() == p.f("m_working_set_slot_id").oi()).unwrap();
                let w = json!({
                    "player_details": pd, "lobby_slot": setup["lobby_state"]["slots"][*k], "title": det["title"],
                    "time_utc": det["time_utc"], "time_local_offset": det["time_local_offset"],
                    "user_init_data_name": u.get("name").cloned().unwrap_or(json!("")),
                    "user_init_data_clan_tag": u.get("clan_tag").cloned().filter(|x| !x.is_null()).unwrap_or(json!("")),
                    "tracker_setup_player_id": null, "tracker_setup_slot_id": null,
                    "cache_handles": det["cache_handles"],
                });
                for (k, x) in w.as_object().unwrap() {
                    if let Some(d) = diff(x, &g[k]) {
                        return bad("lobby", format!("{k} of player {}: {d}", p.f("m_name").str()));
                    }
                }
                if let Some(d) = &whole
                    && g["ext_datetime"] != *d
                {
                    return bad("lobby", format!("the date of the match is {d} or {}", g["ext_datetime"]));
                }
            }
            o.hit("lobby compared");
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ S22
fn mk22(r: &mut Rng, _i: u64, th: bool) -> Scenario {
    let mut sc = Scenario::new("S22", 0);
    let c = DirCfg { good: 1 + r.idx(if th { 20 } else { 10 }), bad: r.idx(5), events: 8, odd_names: true, full: false };
    sc.files = gen_dir(r, &c);
    dirs(&mut sc);
    with_balance(r, &mut sc);
    schedule(r, &mut sc);
    sc.files.push(FileSpec::new(BAL, Kind::Dir));
    let fs: Vec<P> = sc.files.iter().filter(|f| is_file(f)).map(|f| P(f.path.clone())).collect();
    let serial = r.chance(1, 3);
    for _ in 0..1 + r.idx(3) {
        let p = r.pick(&fs).clone();
        let c = match r.below(10) {
            0 | 1 => export(serial),
            2 | 3 => stats(serial),
            4 => Call::Find { path: rd(ROOT), max: 1 + r.idx(20), depth: 5 },
            5 => Call::BalWrite(rd(BAL)),
            6 => Call::BalRead(rd(BAL)),
            7 => Call::ReadAll(p),
            8 => Call::XmlLoad(rd("/sim")),
            _ => {
                let mut t = tl(A, false);
                t.path = p;
                t.max = Some(r.idx(20));
                Call::Timeline(t)
            }
        };
        sc.calls.push(c);
    }
    sc.faults.seed = r.next();
    if r.chance(2, 3) {
        let op = *r.pick(&[Op::Read, Op::Open, Op::Write, Op::Create, Op::Stat, Op::OpenDir, Op::ReadDir]);
        sc.faults.probs.push(Prob { op, prefix: "/sim".into(), per100k: *r.pick(&[500u32, 5000, 30_000]), act: Action::Errno(*r.pick(&[EIO, 24, 28, 13])) });
    }
    if r.chance(1, 4) {
        sticky(r, &mut sc);
    }
    if r.chance(1, 5) {
        shrinking(r, &mut sc);
    }
    if r.chance(1, 3) {
        mild_reads(r, &mut sc.faults, false);
    }
    sc
}
/// somebody else shortens files while they are read, or their size is reported wrong
fn shrinking(r: &mut Rng, sc: &mut Scenario) {
    let op = *r.pick(&[Op::Open, Op::Stat, Op::Read, Op::Read]);
    let act = if r.chance(1, 4) { Action::Size(*r.pick(&[0u64, 16, 5000, 4_000_000])) } else { Action::Shrink(*r.pick(&[0usize, 100, 5000, 60_000])) };
    let op = if matches!(act, Action::Size(_)) { Op::Stat } else { op };
    sc.faults.probs.push(Prob { op, prefix: "/sim".into(), per100k: *r.pick(&[3000u32, 20_000, 60_000]), act });
}
/// something breaks for good: one file, or every operation of a kind from some moment on
fn sticky(r: &mut Rng, sc: &mut Scenario) {
    let op = *r.pick(&[Op::Read, Op::Open, Op::Write, Op::Create, Op::Stat, Op::OpenDir, Op::ReadDir]);
    let one = r.chance(1, 2) && !sc.files.is_empty();
    let mut path = if one { r.pick(&sc.files).path.clone() } else { vec![] };
    if one && matches!(op, Op::Write | Op::Create) {
        path = table_path(r.pick(&tables::TABLES)).into_bytes();
    }
    let nth = Some(r.skewed(if one { 4 } else { 200 }));
    sc.faults.sticky.push(Fault { op, path, nth, act: Action::Errno(*r.pick(&[EIO, 13, 2, 24, 28, 116, 110])) });
}
fn ck22(sc: &Scenario, o: &mut Obs) -> Result<(), Bad> {
    let b = go(sc, o, &How::dirty(sc), &sc.image(), &sc.calls)?;
    b.sound()?;
    if b.run.st.opened >= 3 {
        o.nontrivial.insert(b.run.st.trace);
    }
    fn fds(v: &Value) -> Option<String> {
        match v {
            Value::Object(m) => {
                if let Some(Value::Array(a)) = m.get("fds")
                    && !a.is_empty()
                {
                    return Some(Value::Array(a.clone()).to_string());
                }
                m.get("ok").and_then(|x| x.as_array()).and_then(|a| a.iter().find_map(fds))
            }
            _ => None,
        }
    }
    for (i, r) in b.res.iter().enumerate() {
        let name = sc.calls.get(i).map(|c| format!("{c:?}").chars().take_while(|c| c.is_alphanumeric()).collect::<String>()).unwrap_or_default();
        if let Some(f) = fds(r) {
            return bad(format!("{name} leaks"), format!("after call {i} ({name}) these files are still open: {f}"));
        }
    }
    // a file per worker, the table being written, and one listing per directory level
    let bound = 2 * (sc.workers as u64 + 1) + 6;
    if b.run.st.fd_high > bound {
        return bad("too many open", format!("{} files were open at the same time with {} workers", b.run.st.fd_high, sc.workers));
    }
    // with just that many descriptors everything still works as before
    if sc.faults.probs.iter().all(|p| !matches!(p.act, Action::Errno(e) if e != EINTR)) {
        let mut h = How::dirty(sc);
        h.faults.max_fds = Some(bound);
        let c = go(sc, o, &h, &sc.image(), &sc.calls)?;
        c.sound()?;
        for i in 0..b.res.len() {
            if let Some(d) = diff(&strip(&b.res[i]), &strip(&c.res[i])) {
                return bad("limit noticed", format!("call {i} differs with {bound} descriptors: {d}"));
            }
        }
        o.hit("descriptor limit");
    }
    Ok(())
}

// ------------------------------------------------------------------ S24
fn mk24(r: &mut Rng, _i: u64, th: bool) -> Scenario {
    let mut sc = Scenario::new("S24", 0);
    let none = r.chance(1, 12);
    let c = DirCfg {
        good: if none { 0 } else { r.idx(if th { 10 } else { 6 }) },
        bad: if none { 0 } else { r.idx(4) },
        events: 25,
        odd_names: true,
        full: false,
    };
    sc.files = gen_dir(r, &c);
    dirs(&mut sc);
    if r.chance(1, 15) {
        sc.files.pop();
        sc.shape = "no output directory".into();
    } else if r.chance(1, 20) {
        sc.files.retain(|f| !f.path.starts_with(ROOT.as_bytes()));
        sc.shape = "no source directory".into();
    }
    with_balance(r, &mut sc);
    schedule(r, &mut sc);
    sc.faults.seed = r.next();
    for _ in 0..r.idx(4) {
        let op = *r.pick(&[Op::Read, Op::Open, Op::Write, Op::Create, Op::Stat, Op::OpenDir, Op::ReadDir, Op::Read, Op::Write]);
        let act = match r.below(6) {
            0 | 1 => Action::Errno(*r.pick(&[EIO, 24, 28, 13, 2, 12, EINTR])),
            2 => Action::Delay(20_000_000_000),
            3 if matches!(op, Op::Read | Op::Write) => Action::Short(50),
            4 if op == Op::Write => Action::Torn(50, EIO),
            _ if op == Op::Open => Action::Vanish,
            _ => Action::Delay(1_000_000),
        };
        sc.faults.probs.push(Prob { op, prefix: "/sim".into(), per100k: *r.pick(&[300u32, 3000, 20_000]), act });
    }
    if r.chance(1, 4) {
        sticky(r, &mut sc);
    }
    if r.chance(1, 5) {
        shrinking(r, &mut sc);
    }
    if r.chance(1, 6) {
        sc.faults.disk_space = Some(r.skewed(60_000));
    }
    if r.chance(1, 6) {
        sc.faults.max_fds = Some(1 + r.below(6));
    }
    sc.faults.dir_order = r.next() | 1;
    sc.p = json!({"serial": r.chance(1, 5), "stats": r.chance(1, 3)});
    sc
}
fn ck24(sc: &Scenario, o: &mut Obs) -> Result<(), Bad> {
    let serial = sc.p["serial"] == json!(true);
    let c = if sc.p["stats"] == json!(true) { stats(serial) } else { export(serial) };
    let img = sc.image();
    let a = go(sc, o, &calm(sc), &img, std::slice::from_ref(&c))?;
    a.sound()?;
    let mut h = How::dirty(sc);
    h.step_cap = 40 * a.run.st.ticks + 40_000_000;
    let b = go(sc, o, &h, &img, &[c])?;
    if !b.run.st.delivered.is_empty() || b.run.st.threads > 2 {
        o.nontrivial.insert(b.run.st.trace);
    }
    b.sound()?;
    o.hit(if b.ok(0).is_some() { "success" } else { "error" });
    Ok(())
}

// ------------------------------------------------------------------ S25
fn mk25(r: &mut Rng, _i: u64, th: bool) -> Scenario {
    let mut sc = Scenario::new("S25", 0);
    let big = r.chance(1, if th { 10 } else { 60 });
    let mut m = gen_map(r, big);
    let wild = |r: &mut Rng| match r.below(4) {
        0 => *r.pick(&[0, -1, 257, i32::MAX, i32::MIN, i32::MIN + 1, i32::MAX - 1]),
        1 => -(r.below(300) as i32),
        2 => r.below(300) as i32,
        _ => r.next() as i32,
    };
    sc.calls = vec![Call::Map(rd("/sim/m.s2ma"))];
    let mut damage = vec![];
    let shape = *r.pick(&["whole", "whole", "cut", "absent", "contradiction", "wild", "damaged part", "damaged archive", "read error"]);
    sc.shape = shape.into();
    match shape {
        "cut" => {
            let p = r.below(3) as u8;
            let n = m.part(p).len();
            let at = if r.chance(1, 4) { n - 1 - r.idx(8) } else { r.idx(n) };
            m.damage.push((p, vec![Damage::Trunc(at)]));
        }
        "absent" => m.absent.push(r.below(3) as u8),
        "contradiction" => match r.below(6) {
            0 if m.width != m.height && r.chance(1, 2) => m.terrain.swap(0, 1),
            0 => m.terrain[r.idx(2)] += *r.pick(&[1, -1]),
            1 => {
                let k = r.idx(m.heights.0.len());
                m.heights.0[k] = 5 + r.below(251) as u8;
            }
            2 => m.module = r.pick(&["", "bnet:Swarm (Mod)/0.0/999,file:Mods/Swarm.SC2Mod", "bnet:Void (Mod)/0.0/999,file:Mods/Void.SC2Mo"]).to_string(),
            3 => {
                // the playable area is empty
                let k = r.idx(2);
                m.bounds[k + 2] = m.bounds[k];
            }
            4 => {
                // or reaches over the map
                m.bounds[2] = m.width + 1 + r.below(3) as i32;
            }
            _ => m.bounds[3] = m.height + 1 + r.below(3) as i32,
        },
        "wild" => {
            // any numbers; the height map agrees with them where it can
            for _ in 0..1 + r.below(4) {
                let x = wild(r);
                match r.below(8) {
                    0 => m.width = x,
                    1 => m.height = x,
                    k if k < 6 => m.bounds[k as usize - 2] = x,
                    6 => {
                        (m.width, m.height) = (x, wild(r));
                        m.bounds = [m.width.saturating_sub(9), m.height.saturating_sub(9), m.width, m.height];
                    }
                    _ => m.version = x,
                }
            }
            if r.chance(4, 5) {
                m.terrain = [m.width.saturating_add(1), m.height.saturating_add(1)];
            }
        }
        "damaged part" => {
            let p = r.below(3) as u8;
            let n = m.part(p).len();
            let n = if r.chance(1, 2) { n.min(70) } else { n };
            m.damage.push((p, damages(r, n)));
        }
        "damaged archive" => {
            let n = m.bytes().len();
            let n = if r.chance(1, 3) { n.min(80) } else { n };
            damage = damages(r, n);
        }
        "read error" => {
            let (op, nth) = if r.chance(1, 4) { (Op::Open, 0) } else { (Op::Read, r.skewed(8)) };
            sc.faults.probs.push(Prob { op: Op::Read, prefix: "/sim".into(), per100k: 100_000, act: Action::Short(1 + m.bytes().len() / 3) });
            sc.faults.list.push(Fault { op, path: vec![], nth: Some(nth), act: Action::Errno(*r.pick(&ERRS)) });
        }
        _ => {}
    }
    let k = Kind::Map(Box::new(m));
    let k = if damage.is_empty() { k } else { Kind::Damaged(Box::new(k), damage) };
    sc.files.push(FileSpec::new("/sim/m.s2ma", k));
    if shape != "read error" {
        some_mild(r, &mut sc, false);
    }
    sc
}
fn ck25(sc: &Scenario, o: &mut Obs) -> Result<(), Bad> {
    let mut h = How::dirty(sc);
    h.mem_cap = 256 << 20;
    let b = go(sc, o, &h, &sc.image(), &sc.calls)?;
    b.sound()?;
    o.nontrivial.insert(b.run.st.trace);
    o.hit(&sc.shape);
    let Some(f) = sc.files.first() else { return Ok(()) };
    let Kind::Map(m) = &f.kind else { return Ok(()) };
    let broken = b.run.st.delivered.iter().any(|f| hard(f) && matches!(f.op, Op::Open | Op::Read));
    if broken {
        if let Some(v) = b.ok(0) {
            return bad("map: swallows", format!("a map was returned although a read failed: {}", short(v)));
        }
        return Ok(());
    }
    let v = need(&b, 0, "map")?;
    let [l, bt, rt, t] = m.bounds;
    // what can not be a map
    let no_info = l >= rt || bt >= t || rt > m.width || t > m.height || m.width > 256 || m.height > 256;
    let odd = l < 0 || bt < 0 || m.width < 1 || m.height < 1;
    let no_doc = m.module != MODULE;
    let no_height = no_info || m.terrain != [m.width.wrapping_add(1), m.height.wrapping_add(1)] || m.heights.0.iter().any(|h| *h > 4);
    for (p, no) in [(0u8, no_info), (1, no_doc), (2, no_height)] {
        let name = maps::PARTS[p as usize];
        let hurt = m.damage.iter().find(|d| d.0 == p).map(|d| &d.1[..]);
        let hurt0 = m.damage.iter().any(|d| d.0 == 0);
        let got = v[p as usize].get("ok");
        if m.absent.contains(&p) || (p == 2 && m.absent.contains(&0)) || no {
            if let Some(g) = got
                && hurt.is_none()
                && !(hurt0 && p == 2)
            {
                return bad(format!("{name} invented"), format!("{name} is missing or contradicts itself, but the reader returned {}", short(g)));
            }
            continue;
        }
        let area = m.terrain[0] as i64 * m.terrain[1] as i64;
        if (odd && p != 1) || (p == 2 && area != m.heights.0.len() as i64) {
            continue; // value or error
        }
        let cut = matches!(hurt, Some([Damage::Trunc(_)]));
        match got {
            Some(g) => {
                if hurt.is_some() && !cut {
                    continue;
                }
                if hurt0 && p == 2 {
                    continue;
                }
                if let Some(d) = diff(&m.recorded(p), g) {
                    return bad(format!("{name} differs"), format!("{name}: recorded {d}"));
                }
                o.hit("part as recorded");
            }
            None => {
                if hurt.is_none() && !(p == 2 && hurt0) {
                    return bad(format!("{name} lost"), format!("{name} is whole, but the reader failed: {}", v[p as usize]["err"]));
                }
                o.hit("part reported");
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ S26
const DESC: &str = "/sim/json/protocol87702.json";
const DESC2: &str = "/sim/json/protocol75689.json";
const GEN: &str = "/sim/out/protocol87702.rs";
const GEN2: &str = "/sim/out/protocol75689.rs";
fn mk26(r: &mut Rng, _i: u64, _th: bool) -> Scenario {
    let mut sc = Scenario::new("S26", 0);
    sc.faults.seed = r.next();
    sc.files.push(FileSpec::new("/sim/out", Kind::Dir));
    let text = |r: &mut Rng| {
        let v = crate::protos::generate(r);
        if r.chance(1, 3) { serde_json::to_string_pretty(&v).unwrap() } else { v.to_string() }
    };
    let mut t = text(r);
    sc.files.push(FileSpec::new(DESC2, Kind::Text(text(r))));
    for p in [GEN, GEN2] {
        if r.chance(1, 2) {
            let n = r.skewed(200_000) as usize;
            sc.files.push(FileSpec::new(p, Kind::Text("// old line\n".repeat(n / 12))));
        }
    }
    if r.chance(1, 2) {
        sc.faults.probs.push(Prob { op: Op::Write, prefix: "/sim/out".into(), per100k: *r.pick(&[5_000u32, 50_000]), act: Action::Short(*r.pick(&[1usize, 10, 100])) });
    }
    if r.chance(1, 3) {
        sc.faults.probs.push(Prob { op: Op::Write, prefix: "/sim/out".into(), per100k: 10_000, act: Action::Errno(EINTR) });
    }
    if r.chance(1, 2) {
        mild_reads(r, &mut sc.faults, false);
    }
    let e = *r.pick(&[28, EIO, 122]);
    let mut there = true;
    sc.shape = match r.below(10) {
        0 => {
            there = false;
            "missing"
        }
        1 => {
            let mut n = r.below(t.len() as u64 + 1) as usize;
            while !t.is_char_boundary(n) {
                n -= 1;
            }
            t.truncate(n.min(t.len() - 1));
            "cut"
        }
        2 => {
            let (op, nth) = *r.pick(&[(Op::Open, 1), (Op::Read, 3)]);
            sc.faults.list.push(Fault { op, path: DESC.into(), nth: Some(r.below(nth)), act: Action::Errno(*r.pick(&[EIO, 13, 24])) });
            "read fails"
        }
        3 | 4 => {
            let (op, nth) = *r.pick(&[(Op::Create, 1), (Op::Write, 5), (Op::Write, 60), (Op::Write, 60)]);
            sc.faults.list.push(Fault { op, path: GEN.into(), nth: Some(r.below(nth)), act: Action::Errno(e) });
            "write fails"
        }
        5 => {
            sc.faults.list.push(Fault { op: Op::Write, path: GEN.into(), nth: Some(r.skewed(60)), act: Action::Torn(r.skewed(200) as usize, e) });
            "write torn"
        }
        6 => {
            sc.p = json!({"space_permille": r.below(1000)});
            "disk full"
        }
        7 => {
            sc.p = json!({"at_permille": r.below(1000)});
            sc.faults.crash_bytes = r.skewed(300);
            "killed"
        }
        8 => {
            schedule(r, &mut sc);
            sc.workers = 1;
            "two at once"
        }
        _ => "whole",
    }
    .into();
    if there {
        sc.files.push(FileSpec::new(DESC, Kind::Text(t)));
    }
    sc
}
fn ck26(sc: &Scenario, o: &mut Obs) -> Result<(), Bad> {
    let img = sc.image();
    let desc = |p: &str| match sc.files.iter().find(|f| f.path == p.as_bytes()).map(|f| &f.kind) {
        Some(Kind::Text(t)) => serde_json::from_str::<Value>(t).ok(),
        _ => None,
    };
    let text = |d: &Image, p: &str| d.get(p.as_bytes()).map(|b| String::from_utf8_lossy(b).into_owned());
    let (d1, d2) = (desc(DESC), desc(DESC2));
    let g1 = Call::Gen { src: rd(DESC), out: rd(GEN) };
    let g2 = Call::Gen { src: rd(DESC2), out: rd(GEN2) };
    let two = sc.shape == "two at once";
    let a = go(sc, o, &How::clean(sc).disk(), &img, std::slice::from_ref(&g1))?;
    a.sound()?;
    let full = match (&d1, a.ok(0).is_some()) {
        (None, true) => return bad("no description", format!("a module was generated although the description is {}", sc.shape)),
        (None, false) => String::new(),
        (Some(_), false) => return bad("generation fails", format!("generating fails although nothing failed: {:?}", a.err(0))),
        (Some(d), true) => {
            let t = text(disk(&a)?, GEN).unwrap_or_default();
            if let Some(w) = crate::protos::check(d, &t) {
                return bad("module differs", w);
            }
            t
        }
    };
    let items = d1.as_ref().map(|d| crate::protos::want(d).len()).unwrap_or(0);
    let mut h = How::dirty(sc).disk();
    h.seed ^= 0x5eed;
    if let Some(k) = sc.p["space_permille"].as_u64() {
        let n: u64 = disk(&a)?.0.values().map(|n| if let Node::File(b) = n { b.len() as u64 } else { 0 }).sum();
        h.faults.disk_space = Some(n * k / 1000);
    }
    if let Some(k) = sc.p["at_permille"].as_u64() {
        h.faults.crash_at = Some(a.run.st.io_ops * k / 1000);
    }
    let calls = if two { vec![Call::Par(vec![vec![g2.clone()], vec![g1.clone()]])] } else { vec![g2.clone(), g1.clone()] };
    let calls = if sc.p.is_null() { calls } else { vec![g1.clone()] };
    let b = go(sc, o, &h, &img, &calls)?;
    let killed = b.run.end == End::Crash;
    if items >= 5 || !b.run.st.delivered.is_empty() {
        o.nontrivial.insert(b.run.st.trace);
    }
    o.hit(&sc.shape);
    let at = calls.len() - 1;
    if !killed {
        b.sound()?;
        let hit = b.run.st.delivered.iter().any(hard);
        let ok = if two { b.ok(0).and_then(|v| v[1][0].get("ok")).is_some() } else { b.ok(at).is_some() };
        o.hit(if ok { "written" } else { "error" });
        if !ok && !hit && d1.is_some() {
            return bad("generation fails", format!("generating fails although nothing failed: {:?}", b.res));
        }
        if ok && hit && sc.shape == "read fails" {
            return bad("read error swallowed", "the description could not be read, but a module was generated");
        }
        if ok && text(disk(&b)?, GEN).as_ref() != Some(&full) {
            let t = text(disk(&b)?, GEN).unwrap_or_default();
            let n = t.bytes().zip(full.bytes()).take_while(|(a, b)| a == b).count();
            return bad("module depends on more", format!("{}: success, but {} bytes instead of {}, different from {n} on", sc.shape, t.len(), full.len()));
        }
        if at > 0 || two {
            let ok = if two { b.ok(0).and_then(|v| v[0][0].get("ok")).is_some() } else { b.ok(0).is_some() };
            match (&d2, ok) {
                (Some(d), true) => {
                    if let Some(w) = crate::protos::check(d, &text(disk(&b)?, GEN2).unwrap_or_default()) {
                        return bad("module differs", format!("second description: {w}"));
                    }
                }
                _ if hit => {}
                _ => return bad("generation fails", format!("generating fails although nothing failed: {:?}", b.res)),
            }
        }
    } else {
        o.hit("killed");
    }
    if d1.is_some() {
        let c = go(sc, o, &How::clean(sc).disk(), &disk(&b)?.clone(), &[g1])?;
        c.sound()?;
        if c.ok(0).is_none() || text(disk(&c)?, GEN).as_ref() != Some(&full) {
            return bad("not repaired", format!("generating again does not give the whole module: {:?}", c.res));
        }
    }
    Ok(())
}
