//! Reference model: what a recorded history says, written from the properties, not from the
//! library's code. It follows the delivered events (so that ties between the two streams may
//! be resolved either way) and predicts every unit and every user after each of them.
use crate::codec::*;
use crate::world::{Ev, Match};
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};

pub fn tag_index(tag: i64) -> u32 {
    ((tag >> 18) & 0x3fff) as u32
}
/// One recorded, supported event.
#[derive(Clone, Debug)]
pub struct Exp {
    pub lo: i64,
    pub user: i64,
    pub ev: Value,
    /// index of the record in its stream
    pub rec: usize,
}
pub fn expect(evs: &[Ev], stream: u8) -> Vec<Exp> {
    let mut lo = 0i64;
    let mut o = vec![];
    for (rec, e) in evs.iter().enumerate() {
        lo += e.d as i64;
        let ev = match stream {
            0 => Some(tracker_json(&e.n, &e.v)),
            1 => game_json(&e.n, &e.v),
            _ => (e.n == "EChat").then(|| plain_json(&e.v)),
        };
        if let Some(ev) = ev {
            o.push(Exp { lo, user: e.u as i64, ev, rec });
        }
    }
    o
}
// ------------------------------------------------------------------ set-up, details, header
fn text(b: &[u8]) -> Value {
    String::from_utf8_lossy(b).into_owned().into()
}
fn hex(b: &[u8]) -> Value {
    b.iter().map(|x| format!("{x:02x}")).collect::<String>().into()
}
const SPEED: [&str; 5] = ["ESlower", "ESlow", "ENormal", "EFast", "EFaster"];
const OBSERVE: [&str; 3] = ["ENone", "ESpectator", "EReferee"];
fn setup(v: &V, key: &str) -> Value {
    let pos = |l: &[&str], n: &str| json!(l.iter().position(|x| *x == n).unwrap());
    match v {
        V::Null | V::O(None) => Value::Null,
        V::I(i) => json!(i),
        V::B(b) => json!(b),
        V::Y(b) if key == "cache_handles" => hex(b),
        V::Y(b) if key == "clan_logo" => json!(b),
        V::Y(b) => text(b),
        V::X(_, b) => json!(b),
        V::L(l) => l.iter().map(|x| setup(x, key)).collect::<Vec<_>>().into(),
        V::O(Some(x)) => setup(x, key),
        V::C(n, _) if key == "observe" => pos(&OBSERVE, n),
        V::C(n, _) if key == "game_speed" => pos(&SPEED, n),
        V::C(n, _) => json!(n),
        V::S(f) => match key {
            "race_preference" | "race_pref" | "team_preference" | "color_pref" => setup(&f[0].1, ""),
            _ => {
                let mut o = serde_json::Map::new();
                for (n, x) in f {
                    let k = n.strip_prefix("m_").unwrap_or(n);
                    o.insert(k.into(), setup(x, k));
                }
                o.into()
            }
        },
    }
}
/// The public form of the recorded set-up data of a match. The four bit sets of a slot
/// description that are given as numbers are decoded as such.
pub fn setup_json(m: &Match) -> Value {
    let mut o = setup(m.init.f("m_sync_lobby_state"), "");
    // the bit sets of the slots are given as the integer their bits make up in the recorded stream
    let sc = crate::codec::schema_for(m.version());
    let t = crate::codec::Ty::Ref("ReplaySInitData".into());
    let mut w = crate::codec::BitW::default();
    sc.enc(&mut w, &t, &m.init);
    let mut r = crate::codec::BitR::new(&w.buf);
    r.ints = true;
    let ints = setup(sc.dec(&mut r, &t).unwrap().f("m_sync_lobby_state"), "");
    let ints = &ints["game_description"]["slot_descriptions"];
    for (n, d) in o["game_description"]["slot_descriptions"].as_array_mut().unwrap().iter_mut().enumerate() {
        for k in ["allowed_colors", "allowed_races", "allowed_difficulty", "allowed_observe_types"] {
            d[k] = ints[n][k].clone();
        }
    }
    if m.version() <= 75689 {
        for s in o["lobby_state"]["slots"].as_array_mut().unwrap() {
            s["handicap"] = json!(s["handicap"].as_i64().unwrap() & 0x7f);
            for k in ["brutal_plus_difficulty", "a_c_enemy_race", "a_c_enemy_wave_type", "selected_commander_prestige"] {
                s[k] = json!(0);
            }
            s["retry_mutation_indexes"] = json!([]);
        }
    }
    o
}
/// The public form of the recorded details, without the date.
pub fn details_json(m: &Match) -> Value {
    const RESULT: [&str; 4] = ["Undecided", "Win", "Loss", "Tie"];
    const SPEEDS: [&str; 5] = ["Slower", "Slow", "Normal", "Fast", "Faster"];
    let mut o = setup(&m.details, "");
    o["game_speed"] = json!(SPEEDS[m.details.f("m_game_speed").i() as usize]);
    for k in ["player_list", "cache_handles", "mod_paths"] {
        if o[k].is_null() {
            o[k] = json!([]);
        }
    }
    for p in o["player_list"].as_array_mut().unwrap() {
        let k = p["result"].as_i64().unwrap();
        p["result"] = json!(RESULT[k as usize]);
        if p.get("working_set_slot_id").is_none() {
            p["working_set_slot_id"] = Value::Null;
        }
    }
    o
}
/// details player, lobby slot and slot index, in player order
pub fn joined(m: &Match) -> Vec<(&V, &V, usize)> {
    let slots = m.init.f("m_sync_lobby_state").f("m_lobby_state").f("m_slots").l();
    let mut o = vec![];
    let Some(l) = m.details.f("m_player_list").o() else { return o };
    for p in l.l() {
        let Some(id) = p.f("m_working_set_slot_id").oi() else { continue };
        if let Some(k) = slots.iter().position(|s| s.f("m_working_set_slot_id").oi() == Some(id)) {
            o.push((p, &slots[k], k));
        }
    }
    o
}
/// user id -> name, for users that are players in the lobby
pub fn lobby(m: &Match) -> BTreeMap<i64, String> {
    let mut o = BTreeMap::new();
    for (p, s, _) in joined(m) {
        if let Some(u) = s.f("m_user_id").oi() {
            o.insert(u, p.f("m_name").str());
        }
    }
    o
}

/// Both sides without what depends on state (translated names).
pub fn plain(mut e: Value) -> Value {
    if let Some(c) = e.get_mut("Cmd").and_then(|c| c.get_mut("m_abil"))
        && c.is_object()
    {
        c["ability"] = "".into();
    }
    if let Some(c) = e.get_mut("TriggerTargetModeUpdate") {
        c["ability"] = "".into();
    }
    if let Some(c) = e.get_mut("Upgrade") {
        c["player_name"] = Value::Null;
    }
    e
}
pub struct Item<'a> {
    pub tracker: bool,
    pub lo: i64,
    pub user: i64,
    pub name: Option<&'a str>,
    pub ev: &'a Value,
}
pub fn item(e: &Value) -> Option<Item<'_>> {
    if let Some(t) = e.get("Tracker") {
        return Some(Item { tracker: true, lo: t["tracker_loop"].as_i64()?, user: -1, name: None, ev: &t["event"] });
    }
    let g = e.get("Game")?;
    Some(Item { tracker: false, lo: g["game_loop"].as_i64()?, user: g["user_id"].as_i64()?, name: g["player_name"].as_str(), ev: &g["event"] })
}
/// Delivered items against the recorded streams: completeness, order, fields, loops, names.
/// `want_t`, `want_g`: how many of each stream must have been delivered.
pub fn check_order(names: &BTreeMap<i64, String>, t: &[Exp], g: &[Exp], steps: &[Value]) -> Option<(String, String)> {
    let (mut ti, mut gi) = (0, 0);
    let mut last = i64::MIN;
    for (n, s) in steps.iter().enumerate() {
        let Some(it) = item(&s[0]) else { return Some(("shape".into(), format!("item {n} is neither kind"))) };
        let (k, list, what) = if it.tracker { (&mut ti, t, "tracker") } else { (&mut gi, g, "player") };
        let Some(x) = list.get(*k) else {
            return Some((format!("extra {what}"), format!("item {n}: a {what} event after all {} recorded ones: {}", list.len(), it.ev)));
        };
        *k += 1;
        let got = plain(it.ev.clone());
        let want = plain(x.ev.clone());
        if got != want {
            let kind = want.as_object().and_then(|o| o.keys().next().cloned()).unwrap_or_default();
            return Some((
                format!("event {kind}"),
                format!("item {n}: {what} event {} recorded as {want}, delivered as {got}", *k - 1),
            ));
        }
        if it.lo != x.lo {
            return Some((format!("{what} loop"), format!("item {n}: recorded at loop {}, delivered with {}", x.lo, it.lo)));
        }
        if it.lo < last {
            return Some(("order".into(), format!("item {n}: loop {} after loop {last}", it.lo)));
        }
        last = it.lo;
        if !it.tracker {
            if it.user != x.user {
                return Some(("user".into(), format!("item {n}: recorded for user {}, delivered for {}", x.user, it.user)));
            }
            let w = names.get(&x.user).map(|s| s.as_str());
            if it.name != w {
                return Some(("name".into(), format!("item {n}: user {} is {w:?}, delivered as {:?}", x.user, it.name)));
            }
        }
    }
    if ti < t.len() {
        return Some(("missing tracker".into(), format!("{} of {} tracker events were delivered", ti, t.len())));
    }
    if gi < g.len() {
        return Some(("missing player".into(), format!("{} of {} player events were delivered", gi, g.len())));
    }
    None
}

// ------------------------------------------------------------------ state
#[derive(Clone, Debug, Default)]
pub struct MU {
    pub user: Option<u8>,
    pub pname: Option<String>,
    pub name: String,
    pub pos: [f32; 3],
    pub init_lo: i64,
    pub abil: Option<String>,
    /// undisturbed size
    pub size: f32,
    pub color: [u8; 4],
    pub is_init: bool,
    pub cmd: Value,
}
#[derive(Clone, Debug, Default)]
pub struct MUser {
    pub name: String,
    pub groups: Vec<Vec<u32>>,
    pub cam: [i64; 2],
    pub tid: Option<u8>,
    pub sid: Option<i64>,
}
#[derive(Clone, Debug, Default)]
pub struct Model {
    pub bal: BTreeMap<String, Value>,
    pub units: BTreeMap<u32, MU>,
    pub users: BTreeMap<i64, MUser>,
}
/// What one event did, for the tables and the hints.
#[derive(Clone, Debug, Default)]
pub struct Did {
    /// units whose time of last change is this event
    pub touched: BTreeSet<u32>,
    /// commanded units with their ability names, in selection order
    pub cmd: Vec<(u32, String)>,
    pub target: Option<u32>,
    /// the unit that died
    pub died: Option<(u32, MU)>,
    /// name before a change of type
    pub old_name: Option<String>,
    pub known: bool,
    /// commands met a target whose tag no longer belongs to the live unit
    pub upgrade_name: Option<Option<String>>,
    /// tags of a dead unit's index with another recycle count
    pub ambiguous: Vec<(i64, usize)>,
}
fn f3(x: f32, y: f32, z: f32) -> Value {
    json!([x, y, z])
}
fn coord(v: &Value) -> Value {
    f3(
        v["x"].as_i64().unwrap_or(0) as f32 / 4096.,
        -(v["y"].as_i64().unwrap_or(0) as f32) / 4096.,
        v["z"].as_i64().unwrap_or(0) as f32 / 4096.,
    )
}
fn target(v: &Value) -> Value {
    json!({
        "target_unit_flags": v["m_target_unit_flags"], "timer": v["m_timer"], "tag": v["m_tag"],
        "snapshot_unit_link": v["m_snapshot_unit_link"],
        "snapshot_control_player_id": v["m_snapshot_control_player_id"],
        "snapshot_upkeep_player_id": v["m_snapshot_upkeep_player_id"],
        "snapshot_point": coord(&v["m_snapshot_point"]),
    })
}
pub fn color(name: &str, user: i64) -> [u8; 4] {
    let c = match name {
        "VespeneGeyser" | "SpacePlatformGeyser" => 0x6ec29c,
        "LabMineralField" | "LabMineralField750" | "MineralField" | "MineralField450" | "MineralField750" => 0x72c5dd,
        "XelNagaTower" => 0xfaf8fb,
        "RichMineralField" => 0xea9e36,
        "RichMineralField750" => 0xeb7907,
        "DestructibleRockEx1DiagonalHugeBLUR" | "DestructibleDebris6x6" => 0xb2c5c5,
        "UnbuildablePlatesDestructible" => 0xf4f5f8,
        "Overlord" | "Pylon" | "SupplyDepot" => 0xf7d454,
        "SCV" | "Drone" | "Probe" | "Larva" | "Egg" | "Broodling" => 0xf4f5f8,
        "Hatchery" | "CommandCenter" | "Nexus" => 0xeaa483,
        "Infestor" => 0xa401ed,
        _ => match user {
            0 => 0x6ec29c,
            1 => 0x72c5dd,
            2 => 0xf4f5f8,
            3 => 0xeb7907,
            _ => 0xfaf8fb,
        },
    };
    [(c >> 16) as u8, (c >> 8) as u8, c as u8, 255]
}
pub fn no_cmd() -> Value {
    json!({"cmd_flags":0,"abil":null,"data":"None","sequence":0,"other_unit":null,"other_unit_name":null,"unit_group":null})
}
const SEL: usize = 10;
impl Model {
    /// `bal`: the balance list of the scenario, or null
    pub fn new(m: &Match, bal: &Value) -> Model {
        let mut o = Model::default();
        for e in bal.as_array().unwrap_or(&vec![]) {
            if e[0].as_u64() == Some(m.version() as u64) {
                o.bal.insert(e[1].as_str().unwrap().to_string(), e[2].clone());
            }
        }
        for (u, n) in lobby(m) {
            o.users.insert(u, MUser { name: n, groups: vec![vec![]; 11], ..Default::default() });
        }
        o
    }
    /// Without a generated match: from what the library says about the lobby.
    pub fn from_lobby(names: &Value) -> Model {
        let mut o = Model::default();
        for (u, n) in names.as_object().into_iter().flatten() {
            o.users.insert(
                u.parse().unwrap_or(-1),
                MUser { name: n.as_str().unwrap_or("").into(), groups: vec![vec![]; 11], ..Default::default() },
            );
        }
        o
    }
    pub fn ability(&self, unit: &str, link: i64, idx: i64) -> String {
        let Some(u) = self.bal.get(unit) else { return String::new() };
        let l = |v: &Value| v.as_array().cloned().unwrap_or_default();
        for a in l(&u["abilities"]["ability"]) {
            if a["@index"].as_i64() == Some(link) {
                for c in l(&a["command"]) {
                    if c["@index"].as_i64() == Some(idx) {
                        return format!("{}.{}", a["@id"].as_str().unwrap_or(""), c["@id"].as_str().unwrap_or(""));
                    }
                }
            }
        }
        for (k, w) in [("trains", "Train"), ("builds", "Build")] {
            for t in l(&u[k]["unit"]) {
                if t["@ability"].as_i64() == Some(link) && t["@index"].as_i64() == Some(idx) {
                    return format!("{w}.{}", t["@id"].as_str().unwrap_or(""));
                }
            }
        }
        for t in l(&u["researches"]["upgrade"]) {
            if t["@ability"].as_i64() == Some(link) && t["@index"].as_i64() == Some(idx) {
                return format!("Research.{}", t["@id"].as_str().unwrap_or(""));
            }
        }
        String::new()
    }
    fn size(&self, name: &str) -> f32 {
        self.bal.get(name).and_then(|u| u["misc"]["@radius"].as_f64()).map(|x| x as f32).unwrap_or(0.45)
    }
    fn owner_name(&self, tid: u8) -> Option<String> {
        self.users.values().find(|u| u.tid == Some(tid)).map(|u| u.name.clone())
    }
    fn fresh(&self, name: &str, user: Option<u8>, lo: i64) -> MU {
        MU {
            user,
            pname: user.and_then(|u| self.owner_name(u)),
            name: name.into(),
            init_lo: lo,
            size: self.size(name),
            color: color(name, user.unwrap_or(0) as i64),
            cmd: no_cmd(),
            ..Default::default()
        }
    }
    pub fn selected(&self) -> BTreeSet<u32> {
        self.users.values().flat_map(|u| u.groups[SEL].iter().map(|t| tag_index(*t as i64))).collect()
    }
    fn looks(&mut self, i: u32) {
        let u = &self.units[&i];
        let (s, c) = (self.size(&u.name), color(&u.name, u.user.unwrap_or(0) as i64));
        let u = self.units.get_mut(&i).unwrap();
        u.size = s;
        u.color = c;
    }
    pub fn step(&mut self, it: &Item) -> Did {
        let mut d = Did::default();
        let Some((kind, e)) = it.ev.as_object().and_then(|o| o.iter().next()) else { return d };
        let lo = it.lo;
        let num = |k: &str| e[k].as_i64().unwrap_or(-1);
        let idx = num("unit_tag_index") as u32;
        let st = |k: &str| e[k].as_str().unwrap_or("").to_string();
        let at = [num("x") as f32, num("y") as f32, 0.];
        if it.tracker {
            match kind.as_str() {
                "PlayerSetup" => {
                    if let Some(u) = e["user_id"].as_i64().and_then(|u| self.users.get_mut(&u)) {
                        u.tid = Some(num("player_id") as u8);
                        u.sid = e["slot_id"].as_i64();
                    }
                }
                "Upgrade" => d.upgrade_name = Some(self.owner_name(num("player_id") as u8)),
                "UnitInit" => {
                    d.touched.insert(idx);
                    d.known = self.units.contains_key(&idx);
                    if !d.known {
                        let u = self.fresh(&st("unit_type_name"), Some(num("control_player_id") as u8), lo);
                        self.units.insert(idx, u);
                    }
                    let u = self.units.get_mut(&idx).unwrap();
                    u.pos = at;
                    u.is_init = true;
                    u.name = st("unit_type_name");
                }
                "UnitBorn" => {
                    d.touched.insert(idx);
                    if let Some(c) = e["creator_unit_tag_index"].as_u64()
                        && self.units.contains_key(&(c as u32))
                    {
                        d.touched.insert(c as u32);
                        d.target = Some(c as u32);
                    }
                    d.known = self.units.contains_key(&idx);
                    if d.known {
                        self.units.get_mut(&idx).unwrap().abil = e["creator_ability_name"].as_str().map(|s| s.into());
                    } else {
                        let mut u = self.fresh(&st("unit_type_name"), Some(num("control_player_id") as u8), lo);
                        u.pos = at;
                        self.units.insert(idx, u);
                    }
                }
                "UnitTypeChange" => {
                    d.touched.insert(idx);
                    d.known = self.units.contains_key(&idx);
                    if d.known {
                        let u = self.units.get_mut(&idx).unwrap();
                        d.old_name = Some(std::mem::replace(&mut u.name, st("unit_type_name")));
                        self.looks(idx);
                    } else {
                        let u = self.fresh(&st("unit_type_name"), None, lo);
                        self.units.insert(idx, u);
                    }
                }
                "UnitDone" => {
                    d.known = self.units.contains_key(&idx);
                    if d.known {
                        d.touched.insert(idx);
                        self.units.get_mut(&idx).unwrap().is_init = false;
                        self.looks(idx);
                    }
                }
                "UnitPosition" => {
                    let items: Vec<i64> = e["items"].as_array().into_iter().flatten().map(|x| x.as_i64().unwrap_or(0)).collect();
                    let mut k = num("first_unit_index");
                    for c in items.chunks_exact(3) {
                        k += c[0];
                        if let Some(u) = u32::try_from(k).ok().and_then(|k| self.units.get_mut(&k)) {
                            u.pos = [c[1] as f32, c[2] as f32, 0.];
                            d.touched.insert(k as u32);
                        }
                    }
                }
                "UnitDied" => {
                    let tag = (idx as i64) << 18 | num("unit_tag_recycle");
                    for (n, u) in self.users.iter_mut() {
                        for g in 0..11 {
                            u.groups[g].retain(|t| *t as i64 != tag);
                            if u.groups[g].iter().any(|t| tag_index(*t as i64) == idx) {
                                d.ambiguous.push((*n, g));
                            }
                        }
                    }
                    d.died = self.units.remove(&idx).map(|u| (idx, u));
                    d.known = d.died.is_some();
                    d.target = e["killer_unit_tag_index"].as_u64().map(|k| k as u32).filter(|k| self.units.contains_key(k));
                }
                _ => {}
            }
            return d;
        }
        let tags: Vec<u32> = self.users.get(&it.user).map(|u| u.groups[SEL].clone()).unwrap_or_default();
        let mine: Vec<u32> = tags.iter().map(|t| tag_index(*t as i64)).filter(|k| self.units.contains_key(k)).collect();
        match kind.as_str() {
            "CameraSave" | "CameraUpdate" => {
                let t = &e["m_target"];
                if let Some(u) = self.users.get_mut(&it.user)
                    && t.is_object()
                {
                    u.cam = [t["x"].as_i64().unwrap_or(-1), t["y"].as_i64().unwrap_or(-1)];
                }
            }
            "Cmd" => {
                d.target = e["m_data"]["TargetUnit"]["m_tag"]
                    .as_i64()
                    .map(tag_index)
                    .filter(|k| self.units.contains_key(k));
                let tname = d.target.map(|t| self.units[&t].name.clone());
                if e["m_abil"].is_object() {
                    let a = &e["m_abil"];
                    for k in mine {
                        let name = self.ability(
                            &self.units[&k].name,
                            a["m_abil_link"].as_i64().unwrap_or(-1),
                            a["m_abil_cmd_index"].as_i64().unwrap_or(-1),
                        );
                        let data = match &e["m_data"] {
                            Value::Object(o) => match o.iter().next() {
                                Some((k, v)) if k == "TargetPoint" => json!({"TargetPoint": coord(v)}),
                                Some((k, v)) if k == "TargetUnit" => json!({"TargetUnit": target(v)}),
                                _ => e["m_data"].clone(),
                            },
                            x => x.clone(),
                        };
                        self.units.get_mut(&k).unwrap().cmd = json!({
                            "cmd_flags": e["m_cmd_flags"],
                            "abil": {"abil_link": a["m_abil_link"], "ability": name, "abil_cmd_index": a["m_abil_cmd_index"], "abil_cmd_data": a["m_abil_cmd_data"]},
                            "data": data, "sequence": e["m_sequence"], "other_unit": e["m_other_unit"],
                            "other_unit_name": tname, "unit_group": e["m_unit_group"],
                        });
                        d.touched.insert(k);
                        d.cmd.push((k, name));
                    }
                }
            }
            "CmdUpdateTargetPoint" => {
                for k in mine {
                    let c = &mut self.units.get_mut(&k).unwrap().cmd;
                    c["data"] = json!({"TargetPoint": coord(&e["m_target"])});
                    c["other_unit"] = Value::Null;
                    d.touched.insert(k);
                }
            }
            "CmdUpdateTargetUnit" => {
                let t = tag_index(e["m_target"]["m_tag"].as_i64().unwrap_or(0));
                if self.units.contains_key(&t) {
                    d.target = Some(t);
                    for k in mine {
                        self.units.get_mut(&k).unwrap().cmd["data"] = json!({"TargetUnit": target(&e["m_target"])});
                        d.touched.insert(k);
                    }
                }
            }
            "SelectionDelta" => {
                let g = num("m_control_group_id") as usize;
                if g < 11
                    && let Some(u) = self.users.get_mut(&it.user)
                {
                    u.groups[g] = e["m_delta"]["m_add_unit_tags"].as_array().into_iter().flatten().map(|x| x.as_i64().unwrap_or(0) as u32).collect();
                }
            }
            "ControlGroupUpdate" => {
                let g = num("m_control_group_index") as usize;
                if g < 11
                    && let Some(u) = self.users.get_mut(&it.user)
                {
                    let cur = u.groups[SEL].clone();
                    let how = e["m_control_group_update"].as_str().unwrap_or("");
                    if how.ends_with("AndSteal") {
                        for k in 0..10 {
                            u.groups[k].retain(|t| !cur.contains(t));
                        }
                    }
                    match how {
                        "ESet" | "ESetAndSteal" => u.groups[g] = cur,
                        "EClear" => u.groups[g].clear(),
                        "EAppend" | "EAppendAndSteal" => {
                            u.groups[g].extend(cur);
                            u.groups[g].sort();
                            u.groups[g].dedup();
                        }
                        "ERecall" => u.groups[SEL] = u.groups[g].clone(),
                        _ => {}
                    }
                }
            }
            _ => {}
        }
        d
    }
    /// Where the history leaves it open (a group names another incarnation of a dead unit's
    /// index), follow the library if it removed that entry too.
    pub fn adopt(&mut self, d: &Did, dead: u32, lib: &BTreeMap<i64, Value>) {
        for (u, g) in &d.ambiguous {
            let Some(l) = lib.get(u) else { continue };
            let has = |t: u32| l["groups"][*g].as_array().is_some_and(|a| a.iter().any(|x| x.as_u64() == Some(t as u64)));
            if let Some(m) = self.users.get_mut(u) {
                m.groups[*g].retain(|t| tag_index(*t as i64) != dead || has(*t));
            }
        }
    }
    pub fn check_unit(&self, i: u32, v: &Value, selected: bool) -> Option<(&'static str, String)> {
        let m = &self.units[&i];
        let r = if selected { m.size * 2. } else { m.size };
        let want: [(&'static str, Value); 12] = [
            ("tag_index", i.into()),
            ("user_id", json!(m.user)),
            ("player_name", json!(m.pname)),
            ("name", json!(m.name)),
            ("pos", json!(m.pos)),
            ("init_game_loop", m.init_lo.into()),
            ("creator_ability_name", json!(m.abil)),
            ("is_selected", selected.into()),
            ("radius", json!(r)),
            ("is_init", m.is_init.into()),
            ("cmd", m.cmd.clone()),
            ("color", json!(m.color)),
        ];
        for (k, w) in want {
            if v[k] != w {
                return Some((k, format!("unit {i} ({}): {k} should be {w}, is {}", m.name, v[k])));
            }
        }
        None
    }
    pub fn check_user(&self, n: i64, v: &Value) -> Option<(&'static str, String)> {
        let m = &self.users[&n];
        for (g, w) in m.groups.iter().enumerate() {
            let mut w: Vec<u64> = w.iter().map(|x| *x as u64).collect();
            let mut h: Vec<u64> = v["groups"][g].as_array().into_iter().flatten().map(|x| x.as_u64().unwrap_or(0)).collect();
            w.sort();
            h.sort();
            if w != h {
                let k = if g == SEL { "selection" } else { "control group" };
                return Some((k, format!("user {n}: group {g} should hold {w:?}, holds {h:?}")));
            }
        }
        if v["cam"] != json!(m.cam) {
            return Some(("camera", format!("user {n}: camera should be at {:?}, is at {}", m.cam, v["cam"])));
        }
        if v["tid"] != json!(m.tid) || v["sid"] != json!(m.sid) {
            return Some(("identity", format!("user {n}: tracker identity should be {:?}/{:?}, is {}/{}", m.tid, m.sid, v["tid"], v["sid"])));
        }
        None
    }
}

/// The library's reported state, rebuilt from the changes.
#[derive(Clone, Debug, Default)]
pub struct Seen {
    pub units: BTreeMap<u32, Value>,
    pub users: BTreeMap<i64, Value>,
}
impl Seen {
    pub fn apply(&mut self, du: &Value, dus: &Value) {
        for (k, v) in du.as_object().into_iter().flatten() {
            let k: u32 = k.parse().unwrap();
            if v.is_null() {
                self.units.remove(&k);
            } else {
                self.units.insert(k, v.clone());
            }
        }
        for (k, v) in dus.as_object().into_iter().flatten() {
            self.users.insert(k.parse().unwrap(), v.clone());
        }
    }
}
fn kind_of(e: &Value) -> String {
    e.as_object()
        .and_then(|o| o.iter().next())
        .map(|(k, v)| match v["m_control_group_update"].as_str() {
            Some(s) => format!("{k}/{s}"),
            None => k.clone(),
        })
        .unwrap_or_default()
}
/// Follows a timeline and compares every state with the model. Returns (signature, text).
pub fn check_state(mut m: Model, tl: &Value, mut each: impl FnMut(u64)) -> Option<(String, String)> {
    let mut seen = Seen::default();
    seen.apply(&tl["first"][0], &tl["first"][1]);
    // compares all units while they are few, otherwise those that may have changed (and all now and then)
    let all = |m: &Model, seen: &Seen, only: Option<&(BTreeSet<u32>, BTreeSet<i64>)>| -> Option<(String, String)> {
        let sel = m.selected();
        let one = |k: &u32| match (seen.units.get(k), m.units.get(k)) {
            (Some(v), None) => Some(("unit extra".into(), format!("unit {k} is live but should not be: {v}"))),
            (None, Some(u)) => Some(("unit missing".into(), format!("unit {k} ({}) should be live", u.name))),
            (Some(v), Some(_)) => m.check_unit(*k, v, sel.contains(k)).map(|(w, t)| (format!("unit {w}"), t)),
            (None, None) => None,
        };
        let bad = match only {
            Some(o) => o.0.iter().find_map(one),
            None => seen.units.keys().find_map(one).or_else(|| m.units.keys().find_map(one)),
        };
        if bad.is_some() {
            return bad;
        }
        for k in m.users.keys() {
            match seen.users.get(k) {
                None => return Some(("user missing".into(), format!("user {k} has no state"))),
                Some(v) => {
                    if only.is_none_or(|o| o.1.contains(k))
                        && let Some((w, t)) = m.check_user(*k, v)
                    {
                        return Some((format!("user {w}"), t));
                    }
                }
            }
        }
        for k in seen.users.keys() {
            if !m.users.contains_key(k) {
                return Some(("user extra".into(), format!("user {k} is in no player's lobby slot")));
            }
        }
        None
    };
    if let Some(x) = all(&m, &seen, None) {
        return Some((format!("start {}", x.0), x.1));
    }
    for (n, s) in tl["steps"].as_array().into_iter().flatten().enumerate() {
        let Some(it) = item(&s[0]) else { continue };
        let before: BTreeMap<u32, Value> = s[2]
            .as_object()
            .into_iter()
            .flatten()
            .filter_map(|x| x.0.parse::<u32>().ok())
            .filter_map(|k| Some((k, seen.units.get(&k)?["is_selected"].clone())))
            .collect();
        seen.apply(&s[2], &s[3]);
        let sel = if m.units.len() > 40 { m.selected() } else { BTreeSet::new() };
        let d = m.step(&it);
        if !d.ambiguous.is_empty() {
            let dead = it.ev["UnitDied"]["unit_tag_index"].as_u64().unwrap_or(0) as u32;
            m.adopt(&d, dead, &seen.users);
        }
        let kind = kind_of(it.ev);
        let part = (m.units.len() > 40 && n % 128 != 127).then(|| {
            let mut p = d.touched.clone();
            p.extend(s[2].as_object().into_iter().flatten().filter_map(|x| x.0.parse::<u32>().ok()));
            p.extend(m.selected().symmetric_difference(&sel));
            p.extend(d.target);
            let mut us: BTreeSet<i64> = [it.user].into();
            us.extend(s[3].as_object().into_iter().flatten().filter_map(|x| x.0.parse::<i64>().ok()));
            if it.tracker && !it.ev["UnitPosition"].is_object() {
                us.extend(m.users.keys());
            }
            (p, us)
        });
        if let Some(x) = all(&m, &seen, part.as_ref()) {
            return Some((format!("{kind}: {}", x.0), format!("after item {n} ({}): {}", crate::scenario::short(&s[0]), x.1)));
        }
        let flips = s[2].as_object().into_iter().flatten().filter_map(|x| {
            let k: u32 = x.0.parse().unwrap();
            let b = before.get(&k)?;
            (x.1["is_selected"].is_boolean() && *b != x.1["is_selected"]).then_some(k)
        });
        let touched: BTreeSet<u32> = d.touched.iter().copied().chain(flips).collect();
        for t in &touched {
            let l = seen.units.get(t).and_then(|u| u["last_game_loop"].as_i64());
            if l != Some(it.lo) {
                return Some((format!("{kind}: last change"), format!("after item {n}: unit {t} changed at loop {}, says {l:?}", it.lo)));
            }
        }
        if let Some(w) = &d.upgrade_name
            && it.ev["Upgrade"]["player_name"] != json!(w)
        {
            return Some(("Upgrade: owner".into(), format!("item {n}: upgrade owned by {w:?}, delivered for {}", it.ev["Upgrade"]["player_name"])));
        }
        if kind == "Cmd" && it.ev["Cmd"]["m_abil"].is_object() {
            let got = it.ev["Cmd"]["m_abil"]["ability"].as_str().unwrap_or("");
            let ok = if d.cmd.is_empty() { got.is_empty() } else { d.cmd.iter().any(|c| c.1 == got) };
            if !ok {
                return Some(("Cmd: ability".into(), format!("item {n}: ability {got:?}, commanded units have {:?}", d.cmd)));
            }
        }
        each(crate::sim::rng::hash_bytes(m.units.len() as u64, format!("{kind}{}{:?}", d.known, d.touched.len().min(3)).as_bytes()));
    }
    None
}

/// Change hints against the state the library reports.
pub fn check_hints(tl: &Value) -> Option<(String, String)> {
    let mut seen = Seen::default();
    seen.apply(&tl["first"][0], &tl["first"][1]);
    let mut live: BTreeMap<u32, Value> = seen.units.clone();
    let id = |u: &Value| u["tag_index"].as_u64().unwrap_or(u64::MAX) as u32;
    for (n, s) in tl["steps"].as_array().into_iter().flatten().enumerate() {
        let Some(it) = item(&s[0]) else { continue };
        // what the changed units were before
        let old: BTreeMap<u32, Option<Value>> = s[2]
            .as_object()
            .into_iter()
            .flatten()
            .map(|(k, _)| {
                let k: u32 = k.parse().unwrap();
                (k, seen.units.get(&k).cloned())
            })
            .collect();
        seen.apply(&s[2], &s[3]);
        let was = |k: u32| match old.get(&k) {
            Some(o) => o.as_ref(),
            None => seen.units.get(&k),
        };
        let kind = kind_of(it.ev);
        let h = &s[1];
        let hk = h.as_str().map(|s| s.to_string()).or_else(|| h.as_object().and_then(|o| o.keys().next().cloned())).unwrap_or_default();
        let hv = h.get(&hk).cloned().unwrap_or(Value::Null);
        let fail = |w: &str, t: String| Some((format!("{kind}/{hk}: {w}"), format!("item {n} ({}): {t}", crate::scenario::short(&s[0]))));
        let short = crate::scenario::short;
        // units named as live now
        let mut now: Vec<Value> = vec![];
        // may be the state just before or just after
        let mut either: Vec<Value> = vec![];
        match hk.as_str() {
            "None" => {}
            "Registered" => {
                now.push(hv["unit"].clone());
                if !hv["creator"].is_null() {
                    either.push(hv["creator"].clone());
                }
            }
            "Positions" | "TargetPoints" | "Selection" => now.extend(hv.as_array().cloned().unwrap_or_default()),
            "TargetUnits" => {
                now.extend(hv["units"].as_array().cloned().unwrap_or_default());
                either.push(hv["target"].clone());
            }
            "Abilities" => {
                now.extend(hv["units"].as_array().cloned().unwrap_or_default());
                if !hv["target"].is_null() {
                    either.push(hv["target"].clone());
                }
            }
            "Unregistered" => {
                if !hv["killer"].is_null() {
                    now.push(hv["killer"].clone());
                }
            }
            x => return fail("unknown hint", x.to_string()),
        }
        if hk == "Registered" {
            live.insert(id(&hv["unit"]), Value::Null);
        }
        for u in now.iter().chain(&either) {
            if !live.contains_key(&id(u)) {
                return fail("unannounced", format!("names unit {} which was not announced or is dead", id(u)));
            }
        }
        for u in &now {
            if seen.units.get(&id(u)) != Some(u) {
                let d = seen.units.get(&id(u)).and_then(|s| crate::scenario::diff(u, s)).unwrap_or("not live".into());
                return fail("stale", format!("unit {} differs from the current state: {d}", id(u)));
            }
        }
        for u in &either {
            if seen.units.get(&id(u)) != Some(u) && was(id(u)) != Some(u) {
                return fail("stale other", format!("unit {} is neither the state before nor after: {}", id(u), short(u)));
            }
        }
        // deaths
        for (k, old) in &old {
            if let Some(old) = old
                && !seen.units.contains_key(k)
            {
                if hk != "Unregistered" || id(&hv["killed"]) != *k {
                    return fail("death", format!("unit {k} is gone without notice"));
                }
                if &hv["killed"] != old {
                    let d = crate::scenario::diff(&hv["killed"], old).unwrap_or_default();
                    return fail("last state", format!("unit {k} is not reported with its last state: {d}"));
                }
                let kk = it.ev["UnitDied"]["killer_unit_tag_index"].as_u64().map(|k| k as u32);
                let want = kk.filter(|x| seen.units.contains_key(x));
                let got = (!hv["killer"].is_null()).then(|| id(&hv["killer"]));
                if want != got {
                    return fail("killer", format!("unit {k} was killed by {want:?}, reported {got:?}"));
                }
                live.remove(k);
            }
        }
        if hk == "Unregistered" && seen.units.contains_key(&id(&hv["killed"])) {
            return fail("death", format!("unit {} is reported dead but lives", id(&hv["killed"])));
        }
        if hk == "Unregistered" && was(id(&hv["killed"])).is_none() {
            return fail("death", format!("unit {} is reported dead but was not live", id(&hv["killed"])));
        }
        for k in seen.units.keys() {
            if !live.contains_key(k) {
                return fail("appearance", format!("unit {k} appeared without being announced"));
            }
            if was(*k).is_none() && !(hk == "Registered" && id(&hv["unit"]) == *k) {
                return fail("appearance", format!("unit {k} appeared without being announced"));
            }
        }
        for k in live.keys() {
            if !seen.units.contains_key(k) {
                return fail("announced", format!("unit {k} is announced but not live"));
            }
        }
        if hk == "Selection" {
            let mut ids: Vec<u32> = now.iter().map(id).collect();
            ids.sort();
            if let Some(w) = ids.windows(2).find(|w| w[0] == w[1]) {
                return fail("twice", format!("unit {} is in the hint twice", w[0]));
            }
        }
        // every unit whose selection flag changed is in the selection hint
        let in_hint = |k: &u32| now.iter().any(|u| id(u) == *k);
        for (k, b) in &old {
            if let (Some(b), Some(u)) = (b, seen.units.get(k)) {
                if b["is_selected"] != u["is_selected"] && !in_hint(k) {
                    return fail("selection", format!("unit {k} changed its selection flag but is not in the hint"));
                }
                if b["pos"] != u["pos"] && !in_hint(k) {
                    return fail("position", format!("unit {k} moved but is not in the hint"));
                }
                if b["cmd"] != u["cmd"] && !in_hint(k) {
                    return fail("command", format!("unit {k} was commanded but is not in the hint"));
                }
                if b["name"] != u["name"] && !in_hint(k) {
                    return fail("name", format!("unit {k} changed its type but is not in the hint"));
                }
            }
        }
        if hk == "Positions" {
            let mut k = it.ev["UnitPosition"]["first_unit_index"].as_i64().unwrap_or(0);
            let items: Vec<i64> = it.ev["UnitPosition"]["items"].as_array().into_iter().flatten().map(|x| x.as_i64().unwrap_or(0)).collect();
            for c in items.chunks_exact(3) {
                k += c[0];
                let k = k as u32;
                if seen.units.contains_key(&k) && !in_hint(&k) {
                    return fail("positions", format!("unit {k} is reported to be at a position but is not in the hint"));
                }
            }
        }
    }
    None
}
