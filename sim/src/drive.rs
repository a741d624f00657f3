//! What the simulated process does: calls into the library's public entry points, with every
//! outcome turned into JSON. Runs inside the simulation; the serialisation runs paused.
use crate::sim::fs::bstr;
use crate::sim::{self, note, open_fds, pause};
use s2protocol::details::{Details, PlayerLobbyDetails};
use s2protocol::game_events::VersionedBalanceUnit;
use s2protocol::init_data::InitData;
use s2protocol::{SC2EventIterator, SC2ReplayFilters};
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use std::collections::{BTreeMap, HashMap};
use std::os::unix::ffi::OsStringExt;
use std::path::PathBuf;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct P(#[serde(with = "bstr")] pub Vec<u8>);
impl P {
    pub fn new(s: impl AsRef<[u8]>) -> P {
        P(s.as_ref().to_vec())
    }
    pub fn path(&self) -> PathBuf {
        PathBuf::from(std::ffi::OsString::from_vec(self.0.clone()))
    }
    pub fn string(&self) -> String {
        String::from_utf8_lossy(&self.0).into_owned()
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Tl {
    pub path: P,
    #[serde(default)]
    pub filters: Value,
    /// the name of the player to filter by
    #[serde(default)]
    pub by_name: Option<String>,
    /// report the state after each item
    #[serde(default)]
    pub snap: bool,
    /// stop after this many items
    #[serde(default)]
    pub max: Option<usize>,
    /// serialise to this file after that many items and stop
    #[serde(default)]
    pub save: Option<(usize, P)>,
    /// after that many items clone: run the clone to its end first, then the original
    #[serde(default)]
    pub clone_at: Option<usize>,
    /// start from a saved timeline instead of a replay
    #[serde(default)]
    pub resume: Option<P>,
    /// report hashes only (for comparisons of one run against another)
    #[serde(default)]
    pub digest: bool,
    /// give the timeline the scenario's balance data
    #[serde(default)]
    pub with_balance: bool,
    /// also report what a Rust caller sees of each item and, at a save or load, of the state
    #[serde(default)]
    pub dbg: bool,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Props {
    pub scan: usize,
    pub process: usize,
    pub depth: usize,
    pub min: Option<u32>,
    pub max: Option<u32>,
}
impl Default for Props {
    fn default() -> Self {
        Props { scan: 1000, process: 1000, depth: 10, min: None, max: None }
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Call {
    Header(P),
    Init(P, u64),
    Details(P),
    Lobby(P),
    Tracker(P),
    Game(P),
    Msgs(P),
    /// header, set-up, details and all bulk readers of one archive
    ReadAll(P),
    Timeline(Tl),
    Export { src: P, out: P, props: Props, serial: bool },
    /// one table of all replays, by the function for that table ("once": the details in one go)
    Table { src: P, out: P, table: String, serial: bool },
    /// the users of the set-up data as rows
    Users(P, u64),
    DirStats { path: P, serial: bool },
    Find { path: P, max: usize, depth: usize },
    BalWrite(P),
    BalRead(P),
    XmlLoad(P),
    /// the three parts of a map resource archive
    Map(P),
    /// a decoder module from a protocol description
    Gen { src: P, out: P },
    /// one thread per list
    Par(Vec<Vec<Call>>),
}
pub type Bal = HashMap<(u32, String), VersionedBalanceUnit>;

pub fn balance_map(v: &Value) -> Bal {
    let mut m = HashMap::new();
    if let Some(l) = v.as_array() {
        for e in l {
            let u: VersionedBalanceUnit = serde_json::from_value(e[2].clone()).expect("oracle: balance unit");
            m.insert((e[0].as_u64().unwrap() as u32, e[1].as_str().unwrap().to_string()), u);
        }
    }
    m
}
fn balance_json(m: &Bal) -> Value {
    let mut o: BTreeMap<(u32, String), Value> = BTreeMap::new();
    for (k, u) in m {
        o.insert(k.clone(), serde_json::to_value(u).unwrap());
    }
    o.into_iter().map(|((v, n), u)| json!([v, n, u])).collect::<Vec<_>>().into()
}

fn show<T: Serialize>(t: &T) -> Value {
    pause(|| serde_json::to_value(t).expect("oracle: to_value"))
}
type R = Result<Value, String>;
fn es<E: std::fmt::Display>(e: E) -> String {
    pause(|| {
        let mut s = format!("{e}");
        if s.len() > 300 {
            let k = (0..=300).rev().find(|k| s.is_char_boundary(*k)).unwrap();
            s.truncate(k);
        }
        s
    })
}

pub struct Ctx {
    pub bal: Bal,
}

fn filters(v: &Value) -> Option<SC2ReplayFilters> {
    if v.is_null() {
        return None;
    }
    pause(|| {
        let mut f = serde_json::to_value(SC2ReplayFilters::default()).unwrap();
        for (k, x) in v.as_object().unwrap() {
            f[k] = x.clone();
        }
        Some(serde_json::from_value(f).expect("oracle: filters"))
    })
}

/// Hashes of the state's parts as of the last look.
#[derive(Default, Clone)]
struct Snap {
    units: HashMap<u32, (u64, u32)>,
    users: HashMap<i64, u64>,
    round: u32,
}
impl Snap {
    /// (changed units, changed users) against the last call
    fn diff(&mut self, it: &SC2EventIterator) -> (Value, Value) {
        let st = &it.sc2_state;
        let mut du = serde_json::Map::new();
        let mut dus = serde_json::Map::new();
        self.round += 1;
        for (k, u) in &st.units {
            let h = crate::hashser::hash(u);
            let e = self.units.entry(*k).or_insert((!h, 0));
            e.1 = self.round;
            if e.0 != h {
                e.0 = h;
                du.insert(k.to_string(), serde_json::to_value(u).expect("oracle: unit"));
            }
        }
        if self.units.len() > st.units.len() {
            let round = self.round;
            self.units.retain(|k, e| {
                if e.1 != round {
                    du.insert(k.to_string(), Value::Null);
                }
                e.1 == round
            });
        }
        for (k, u) in &st.user_state {
            let d = &u.player_lobby_details;
            let part = (&u.control_groups, u.camera_pos.x, u.camera_pos.y, d.tracker_setup_player_id, d.tracker_setup_slot_id);
            let h = crate::hashser::hash(&part);
            if self.users.insert(*k, h) != Some(h) {
                dus.insert(k.to_string(), json!({"groups": part.0, "cam": [part.1, part.2], "tid": part.3, "sid": part.4}));
            }
        }
        (du.into(), dus.into())
    }
    fn digest(&mut self, it: &SC2EventIterator) -> u64 {
        let st = &it.sc2_state;
        let mut h = 0u64;
        for (k, u) in &st.units {
            h = h.wrapping_add(crate::hashser::hash(&(k, u)));
        }
        for (k, u) in &st.user_state {
            h = h.wrapping_add(crate::hashser::hash(&(k, u)).rotate_left(1));
        }
        h
    }
}
/// Hash of the Debug form: also covers what serialisation leaves out.
fn dbg<T: std::fmt::Debug>(t: &T) -> u64 {
    struct W(u64);
    impl std::fmt::Write for W {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            for b in s.bytes() {
                self.0 = (self.0 ^ b as u64).wrapping_mul(0x100_0000_01b3);
            }
            Ok(())
        }
    }
    let mut w = W(0xcbf2_9ce4_8422_2325);
    let _ = std::fmt::write(&mut w, format_args!("{t:?}"));
    w.0
}
fn dbg_state(it: &SC2EventIterator) -> Value {
    pause(|| {
        let st = &it.sc2_state;
        let u: BTreeMap<String, u64> = st.units.iter().map(|(k, u)| (k.to_string(), dbg(u))).collect();
        let p: BTreeMap<String, u64> = st.user_state.iter().map(|(k, u)| (k.to_string(), dbg(u))).collect();
        json!({"unit": u, "user": p})
    })
}
/// Steps a timeline: one [event, hint, changed units, changed users] per item.
fn steps(it: &mut SC2EventIterator, snap: &mut Option<Snap>, max: usize, digest: bool, deep: bool, out: &mut Vec<Value>) -> bool {
    for _ in 0..max {
        match it.next() {
            None => return false,
            Some(x) if digest => {
                pause(|| {
                    let h = crate::hashser::hash(&(&x.event_type, &x.change_hint));
                    let d = if out.len() % 32 == 0 { snap.as_mut().map(|s| s.digest(it)) } else { None };
                    out.push(Value::Array(vec![h.into(), d.into()]));
                });
            }
            Some(x) => pause(|| {
                let x = &x;
                let e = serde_json::to_value(&x.event_type).expect("oracle: event");
                let h = serde_json::to_value(&x.change_hint).expect("oracle: hint");
                let (a, b) = match snap {
                    Some(s) => s.diff(it),
                    None => (Value::Null, Value::Null),
                };
                let mut l = vec![e, h, a, b];
                if deep {
                    l.push(dbg(&(&x.event_type, &x.change_hint)).into());
                }
                out.push(Value::Array(l));
            }),
        }
    }
    true
}
/// An object of moved values (json! would copy them).
fn obj(l: Vec<(&str, Value)>) -> Value {
    pause(|| Value::Object(l.into_iter().map(|(k, v)| (k.to_string(), v)).collect()))
}
fn timeline(t: &Tl, cx: &Ctx) -> R {
    let mut it = match &t.resume {
        Some(p) => {
            let b = s2protocol::read_file(&p.path()).map_err(es)?;
            pause(|| serde_json::from_slice::<SC2EventIterator>(&b).map_err(|e| format!("load: {e}")))?
        }
        None => {
            let init = InitData::try_from((t.path.path(), 0u64)).map_err(es)?;
            let bal = if t.with_balance { cx.bal.clone() } else { HashMap::new() };
            let mut it = SC2EventIterator::new(&init, bal).map_err(es)?;
            if let Some(mut f) = filters(&t.filters) {
                if let Some(n) = &t.by_name {
                    f.set_player_id_from_user_name(n, &Details::try_from(&init).map_err(es)?);
                }
                it = it.with_filters(f);
            }
            it
        }
    };
    let mut snap = t.snap.then(Snap::default);
    let mut out = vec![];
    let first = match &mut snap {
        Some(s) => pause(|| {
            let (u, us) = s.diff(&it);
            Value::Array(vec![u, us])
        }),
        None => Value::Null,
    };
    let lobby = pause(|| {
        it.sc2_state
            .user_state
            .iter()
            .map(|(k, u)| (k.to_string(), json!(u.player_lobby_details.player_details.name)))
            .collect::<serde_json::Map<_, _>>()
    });
    let max = t.max.unwrap_or(usize::MAX);
    if let Some((n, p)) = &t.save {
        let more = steps(&mut it, &mut snap, *n, t.digest, t.dbg, &mut out);
        // events that are not shown may still have changed the state
        let last = match &mut snap {
            Some(s) => pause(|| {
                let (u, us) = s.diff(&it);
                Value::Array(vec![u, us])
            }),
            None => Value::Null,
        };
        let deep = if t.dbg { dbg_state(&it) } else { Value::Null };
        let b = pause(|| serde_json::to_vec(&it).expect("oracle: save"));
        std::fs::write(p.path(), b).map_err(es)?;
        return Ok(obj(vec![("steps", out.into()), ("more", more.into()), ("first", first), ("last", last), ("dbg", deep), ("lobby", lobby.into())]));
    }
    if let Some(n) = t.clone_at {
        steps(&mut it, &mut snap, n, t.digest, t.dbg, &mut out);
        let mut other = it.clone();
        let mut o2 = out.clone();
        let mut s2 = snap.clone();
        steps(&mut other, &mut s2, max, t.digest, t.dbg, &mut o2);
        drop(other);
        steps(&mut it, &mut snap, max, t.digest, t.dbg, &mut out);
        return Ok(obj(vec![("steps", out.into()), ("clone", o2.into()), ("first", first), ("lobby", lobby.into())]));
    }
    let deep = if t.dbg { dbg_state(&it) } else { Value::Null };
    let more = steps(&mut it, &mut snap, max, t.digest, t.dbg, &mut out);
    // an ended timeline stays ended
    let mut tail = 0;
    if !more {
        for _ in 0..3 {
            tail += it.next().is_some() as u32;
        }
    }
    Ok(obj(vec![("steps", out.into()), ("more", more.into()), ("tail", tail.into()), ("dbg", deep), ("first", first), ("lobby", lobby.into())]))
}

fn header(p: &P) -> R {
    let (mpq, _f) = s2protocol::read_mpq(&p.string()).map_err(es)?;
    let h = match s2protocol::read_protocol_header(&mpq) {
        Ok((_, h)) => h,
        Err(e) => return Err(es(s2protocol::S2ProtocolError::from(e))),
    };
    Ok(Value::String(pause(|| format!("{h:?}"))))
}
fn open(p: &P) -> Result<(s2protocol::MPQ, Vec<u8>), String> {
    s2protocol::read_mpq(&p.string()).map_err(es)
}
fn map(p: &P) -> R {
    use s2protocol::cache_handles::{document_header::DocumentHeader, map_info::MapInfo, t3_height_map::T3HeightMap};
    let (m, f) = open(p)?;
    let info = MapInfo::from_mpq(&m, &f).map_err(es);
    let doc = DocumentHeader::from_mpq(&m, &f).map_err(es);
    let height = match &info {
        Ok(i) => T3HeightMap::from_mpq(&m, &f, i).map_err(es),
        Err(_) => Err("no map info".into()),
    };
    let xy = |c: s2protocol::cache_handles::coords::MapCellCoord| (c.x, c.y);
    let txy = |c: s2protocol::cache_handles::coords::MapTerrainCoord| (c.x, c.y);
    let info = info.map(|i| {
        let d = (xy(i.cell_dim_map()), txy(i.terrain_dim_map()), xy(i.cell_dim_playable()), txy(i.terrain_dim_playable()));
        let e = (xy(i.cell_left_bottom()), xy(i.cell_right_top()));
        pause(|| {
            json!({
                "file_version": i.file_version, "cell_width": i.cell_width, "cell_height": i.cell_height,
                "first_string": i.first_string, "second_string": i.second_string,
                "third_string": i.third_string, "fourth_string": i.fourth_string,
                "cell_left": i.cell_left, "cell_bottom": i.cell_bottom, "cell_right": i.cell_right, "cell_top": i.cell_top,
                "cell_dim_map": d.0, "terrain_dim_map": d.1, "cell_dim_playable": d.2, "terrain_dim_playable": d.3,
                "cell_left_bottom": e.0, "cell_right_top": e.1,
            })
        })
    });
    Ok(pause(|| {
        let doc = doc.map(|d| {
            json!({
                "x1": d.maybe_dimension_x1, "y1": d.maybe_dimension_y1, "e1": d.some_epoch_1, "e2": d.some_epoch_2,
                "mod": d.mod_info, "name": d.name, "long": d.description_long, "short": d.description_short,
            })
        });
        let height = height.map(|h| json!({"width": h.width, "height": h.height, "data": h.data}));
        [info, doc, height]
            .into_iter()
            .map(|r| match r {
                Ok(v) => json!({ "ok": v }),
                Err(e) => json!({ "err": e }),
            })
            .collect::<Vec<_>>()
            .into()
    }))
}
fn one(c: &Call, cx: &Ctx) -> R {
    match c {
        Call::Header(p) => header(p),
        Call::Init(p, id) => InitData::try_from((p.path(), *id)).map(|x| show(&x)).map_err(es),
        Call::Details(p) => {
            let (m, f) = open(p)?;
            Details::new(&p.string(), 0, &m, &f).map(|x| show(&x)).map_err(es)
        }
        Call::Lobby(p) => {
            let i = InitData::try_from((p.path(), 0)).map_err(es)?;
            Vec::<PlayerLobbyDetails>::try_from(&i).map(|x| show(&x)).map_err(es)
        }
        Call::Tracker(p) => {
            let (m, f) = open(p)?;
            s2protocol::read_tracker_events(&p.string(), &m, &f).map(|x| show(&x)).map_err(es)
        }
        Call::Game(p) => {
            let (m, f) = open(p)?;
            s2protocol::read_game_events(&p.string(), &m, &f).map(|x| show(&x)).map_err(es)
        }
        Call::Msgs(p) => {
            let (m, f) = open(p)?;
            s2protocol::read_message_events(&p.string(), &m, &f).map(|x| show(&x)).map_err(es)
        }
        Call::ReadAll(p) => {
            let mut o = vec![];
            for c in [
                Call::Header(p.clone()),
                Call::Init(p.clone(), 0),
                Call::Details(p.clone()),
                Call::Lobby(p.clone()),
                Call::Tracker(p.clone()),
                Call::Game(p.clone()),
                Call::Msgs(p.clone()),
            ] {
                o.push(call(&c, cx));
            }
            Ok(o.into())
        }
        Call::Timeline(t) => timeline(t, cx),
        Call::Map(p) => map(p),
        Call::Export { src, out, props, serial } => {
            let w = s2protocol::WriteArrowIpcProps {
                scan_max_files: props.scan,
                process_max_files: props.process,
                traverse_max_depth: props.depth,
                min_version: props.min,
                max_version: props.max,
            };
            s2protocol::ArrowIpcTypes::handle_arrow_ipc_cmd(src.path(), out.path(), &w, &cx.bal, *serial)
                .map(|_| Value::Null)
                .map_err(es)
        }
        Call::Table { src, out, table, serial } => {
            use s2protocol::ArrowIpcTypes as T;
            let mut inits = vec![];
            for (k, f) in s2protocol::get_matching_files(src.path(), 1000, 10).map_err(es)?.into_iter().enumerate() {
                inits.extend(InitData::try_from((f, k as u64)).ok());
            }
            let (out, bal) = (out.path(), &cx.bal);
            match table.as_str() {
                "details" => T::Details.handle_details_ipc_cmd(inits, out),
                "once" => T::Details.handle_read_once_write_all(inits, out),
                "stats" => T::Stats.handle_tracker_events(inits, out, bal, *serial),
                "upgrades" => T::Upgrades.handle_tracker_events(inits, out, bal, *serial),
                "unit_born" => T::UnitBorn.handle_tracker_events(inits, out, bal, *serial),
                "unit_died" => T::UnitDied.handle_tracker_events(inits, out, bal, *serial),
                "cmd_target_point" => T::CmdTargetPoint.handle_game_events(inits, out, bal, *serial),
                "cmd_target_unit" => T::CmdTargetUnit.handle_game_events(inits, out, bal, *serial),
                t => panic!("oracle: table {t}"),
            }
            .map(|_| Value::Null)
            .map_err(es)
        }
        Call::Users(p, id) => {
            let i = InitData::try_from((p.path(), *id)).map_err(es)?;
            Ok(show(&Vec::<s2protocol::init_data::UserInitDataFlatRow>::from(&i)))
        }
        Call::DirStats { path, serial } => {
            s2protocol::dir_stats::scan_path(&path.string(), &cx.bal, *serial).map(|x| show(&x)).map_err(es)
        }
        Call::Find { path, max, depth } => s2protocol::get_matching_files(path.path(), *max, *depth)
            .map(|v| {
                pause(|| {
                    v.iter()
                        .map(|p| Value::String(bstr::enc(std::os::unix::ffi::OsStrExt::as_bytes(p.as_os_str()))))
                        .collect::<Vec<_>>()
                        .into()
                })
            })
            .map_err(es),
        Call::BalWrite(p) => {
            s2protocol::game_events::ability::balance_data::json_handler::write_balance_data_to_json(p.path(), cx.bal.clone())
                .map(|_| Value::Null)
                .map_err(es)
        }
        Call::BalRead(p) => {
            s2protocol::game_events::ability::balance_data::json_handler::read_balance_data_from_json_dir(p.path())
                .map(|m| pause(|| balance_json(&m)))
                .map_err(es)
        }
        Call::XmlLoad(p) => s2protocol::game_events::ability::balance_data::traverse_versioned_balance_abilities(p.path())
            .map(|m| pause(|| balance_json(&m)))
            .map_err(es),
        Call::Gen { src, out } => {
            let (s, o) = pause(|| (src.path().to_string_lossy().into_owned(), out.path().to_string_lossy().into_owned()));
            s2protocol::generator::proto_morphist::ProtoMorphist::r#gen(&s, &o).map(|_| Value::Null).map_err(es)
        }
        Call::Par(lists) => {
            let v: Vec<Vec<Value>> = std::thread::scope(|s| {
                let hs: Vec<_> = lists
                    .iter()
                    .map(|l| s.spawn(move || l.iter().map(|c| call(c, cx)).collect::<Vec<_>>()))
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
            });
            Ok(json!(v))
        }
    }
}
/// {"ok": v} | {"err": text} | {"panic": text}, plus the descriptors left open
pub fn call(c: &Call, cx: &Ctx) -> Value {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| one(c, cx)));
    pause(|| {
        let par = matches!(c, Call::Par(_));
        let mut v = match r {
            Ok(Ok(v)) => obj(vec![("ok", v)]),
            Ok(Err(e)) => json!({ "err": e }),
            Err(_) => {
                let p = sim::last_panic();
                if p.starts_with("oracle") {
                    note(format!("HARNESS {p}"));
                }
                json!({ "panic": p })
            }
        };
        if !par {
            v["fds"] = json!(open_fds());
        }
        v
    })
}
pub fn body(calls: Vec<Call>, balance: Value) -> Vec<u8> {
    let cx = Ctx { bal: pause(|| balance_map(&balance)) };
    let mut o = vec![];
    for c in &calls {
        o.push(call(c, &cx));
    }
    pause(|| serde_json::to_vec(&o).unwrap())
}
