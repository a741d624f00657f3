//! Workload generation: whole replays (set-up, details, two event streams, chat) and the
//! directories they live in.
use crate::codec::*;
use crate::mpq::{self, MpqOpts};
use crate::sim::rng::Rng;
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Ev {
    /// loops since the previous record of the stream
    pub d: u32,
    /// wire width class of the delta, 9 = smallest that fits
    #[serde(default = "nine", skip_serializing_if = "is_nine")]
    pub w: u8,
    #[serde(default, skip_serializing_if = "is_zero")]
    pub u: u8,
    pub n: String,
    pub v: V,
}
fn nine() -> u8 {
    9
}
fn is_nine(x: &u8) -> bool {
    *x == 9
}
fn is_zero(x: &u8) -> bool {
    *x == 0
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Match {
    pub header: V,
    pub details: V,
    pub init: V,
    pub tracker: Vec<Ev>,
    pub game: Vec<Ev>,
    pub msgs: Vec<Ev>,
    #[serde(default)]
    pub mpq: MpqOpts,
}
/// Damage done to one event stream before it is put into the archive.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct StreamDamage {
    /// 0 tracker, 1 game, 2 messages
    pub stream: u8,
    /// index of the first damaged record
    pub rec: usize,
    /// Some(n): the stream ends n bytes into that record; None: `bytes` overwrite its start
    pub cut: Option<usize>,
    #[serde(default, with = "crate::sim::fs::bstr")]
    pub bytes: Vec<u8>,
}

pub fn base_build(h: &V) -> u32 {
    h.f("m_version").f("m_base_build").i() as u32
}
impl Match {
    pub fn version(&self) -> u32 {
        base_build(&self.header)
    }
    /// encoded records of a stream
    pub fn records(&self, stream: u8) -> Vec<Vec<u8>> {
        let sc = schema_for(self.version());
        let evs = match stream {
            0 => &self.tracker,
            1 => &self.game,
            _ => &self.msgs,
        };
        evs.iter()
            .map(|e| {
                let w = if e.w > 3 { min_width(e.d) } else { e.w.max(min_width(e.d)) };
                let mut o = vec![];
                match stream {
                    0 => tracker_record(&mut o, w, e.d, &e.n, &e.v),
                    1 => bit_record(sc, &mut o, w, e.d, e.u, "GameEEventId", &e.n, &e.v),
                    _ => bit_record(sc, &mut o, w, e.d, e.u, "GameEMessageId", &e.n, &e.v),
                }
                o
            })
            .collect()
    }
    pub fn stream(&self, stream: u8, dmg: Option<&StreamDamage>) -> Vec<u8> {
        let mut o = vec![];
        for (i, r) in self.records(stream).into_iter().enumerate() {
            if let Some(d) = dmg
                && d.stream == stream
                && d.rec == i
            {
                match d.cut {
                    Some(n) => {
                        o.extend(&r[..n.min(r.len())]);
                        return o;
                    }
                    None => {
                        let mut r = r;
                        let k = d.bytes.len().min(r.len());
                        r[..k].copy_from_slice(&d.bytes[..k]);
                        o.extend(r);
                        continue;
                    }
                }
            }
            o.extend(r);
        }
        o
    }
    /// Well-encoded, but what is recorded makes no sense: about one value in `p` is anything,
    /// and events are lost, repeated, reordered or far apart.
    pub fn wild(&mut self, r: &mut Rng, p: u64) {
        let sc = schema_for(self.version());
        // 1..=3 set-up, details, header; 4..=6 one stream; 7 all streams; 0 everything
        let what = *r.pick(&[0, 0, 1, 2, 3, 4, 5, 6, 7, 7, 7]);
        let all = what == 0;
        if all || what == 1 {
            sc.wild(r, &Ty::Ref("ReplaySInitData".into()), &mut self.init, p);
        }
        if all || what == 2 {
            twild(r, &DETAILS, &mut self.details, p);
        }
        if (all || what == 3) && r.chance(1, 3) {
            // the version decides how the rest was encoded
            let v = self.version();
            twild(r, &HEADER, &mut self.header, p);
            if !self.header_ok(v) {
                self.header = gen_header(r, v);
            }
        }
        for (k, evs) in [&mut self.tracker, &mut self.game, &mut self.msgs].into_iter().enumerate() {
            if !all && what != 7 && what != k as u64 + 4 {
                continue;
            }
            for e in evs.iter_mut() {
                match k {
                    0 => {
                        let id = TRACKER.iter().position(|t| t.0 == e.n).unwrap();
                        twild(r, &TRACKER[id].1, &mut e.v, p);
                    }
                    _ => {
                        let t = sc.get(if k == 1 { "GameEEventId" } else { "GameEMessageId" });
                        let Ty::Ch(_, vs) = t else { unreachable!() };
                        let c = vs.iter().find(|c| c.1 == e.n).unwrap();
                        sc.wild(r, &c.2, &mut e.v, p);
                        if r.chance(1, p) {
                            e.u = r.below(32) as u8;
                        }
                    }
                }
                if r.chance(1, p * 8) {
                    e.d = *r.pick(&[0, 0, u32::MAX, 1 << 31, (1 << 31) - 1, 1 << 22, 63, 64]);
                }
            }
            if r.chance(1, 3) && evs.len() > 1 {
                for _ in 0..1 + r.skewed(evs.len() as u64 / 2) {
                    if evs.len() < 2 {
                        break;
                    }
                    let (a, b) = (r.idx(evs.len()), r.idx(evs.len()));
                    match r.below(3) {
                        0 => drop(evs.remove(a)),
                        1 => evs.swap(a, b),
                        _ => {
                            let e = evs[a].clone();
                            evs.insert(b, e);
                        }
                    }
                }
            }
        }
    }
    /// the header still names this protocol
    fn header_ok(&self, v: u32) -> bool {
        let V::S(fs) = &self.header else { return false };
        fs.iter().any(|f| f.0 == "m_version" && matches!(&f.1, V::S(g) if g.iter().filter(|g| g.0 == "m_base_build").count() == 1))
            && fs.iter().filter(|f| f.0 == "m_version").count() == 1
            && self.version() == v
    }
    pub fn header_bytes(&self) -> Vec<u8> {
        let mut h = vec![];
        tenc(&mut h, &HEADER, &self.header);
        h
    }
    pub fn bytes(&self, dmg: Option<&StreamDamage>) -> Vec<u8> {
        self.bytes_full(dmg, |_, _| {})
    }
    /// `f` may change each part before it is packed: 0 tracker, 1 game, 2 messages, 3 set-up,
    /// 4 details, 5 header
    pub fn bytes_with(&self, f: impl Fn(u8, &mut Vec<u8>)) -> Vec<u8> {
        self.bytes_full(None, f)
    }
    fn bytes_full(&self, dmg: Option<&StreamDamage>, f: impl Fn(u8, &mut Vec<u8>)) -> Vec<u8> {
        let mut d = vec![];
        tenc(&mut d, &DETAILS, &self.details);
        let mut w = BitW::default();
        schema_for(self.version()).enc(&mut w, &Ty::Ref("ReplaySInitData".into()), &self.init);
        let mut parts = [self.stream(0, dmg), self.stream(1, dmg), self.stream(2, dmg), w.buf, d, self.header_bytes()];
        for (i, p) in parts.iter_mut().enumerate() {
            f(i as u8, p);
        }
        let [t, g, m, i, d, h] = parts;
        mpq::write(
            &h,
            &[
                ("replay.initData", i),
                ("replay.details", d),
                ("replay.tracker.events", t),
                ("replay.game.events", g),
                ("replay.message.events", m),
            ],
            &self.mpq,
        )
    }
}

// ------------------------------------------------------------------ generation
#[derive(Clone, Debug)]
pub struct Cfg {
    pub events: usize,
    pub msgs: usize,
    /// weight of user commands against tracker records, percent
    pub game_pct: u64,
    pub sorted_ties: bool,
    /// only this share of records is of kinds without effect on the state
    pub noise_pct: u64,
    pub big_loops: bool,
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg { events: 60, msgs: 4, game_pct: 50, sorted_ties: false, noise_pct: 15, big_loops: true }
    }
}
pub const NAMES: [&str; 40] = [
    "SCV", "Drone", "Probe", "Larva", "Egg", "Hatchery", "CommandCenter", "Nexus", "Marine", "Zergling", "Zealot", "Overlord",
    "Pylon", "SupplyDepot", "VespeneGeyser", "SpacePlatformGeyser", "LabMineralField", "LabMineralField750", "MineralField",
    "MineralField450", "MineralField750", "XelNagaTower", "RichMineralField", "RichMineralField750",
    "DestructibleRockEx1DiagonalHugeBLUR", "DestructibleDebris6x6", "UnbuildablePlatesDestructible", "Broodling", "Infestor",
    "Baneling", "BanelingCocoon", "Queen", "Stalker", "Sentry", "Roach", "SiegeTank", "SiegeTankSieged", "WarpPrism", "Bunker",
    "Barracks",
];
pub fn uname(r: &mut Rng) -> V {
    if r.chance(1, 30) { V::Y(text(r, 24)) } else { V::y(r.pick(&NAMES)) }
}
pub const VERSIONS: [u32; 12] = [87702, 89720, 75689, 75688, 76114, 88500, 91115, 95299, 60000, 83830, 84643, 94137];

pub fn gen_header(r: &mut Rng, version: u32) -> V {
    let md5 = |r: &mut Rng| V::s(&[("m_data", V::Y(r.bytes(16)))]);
    V::s(&[
        ("m_signature", V::Y(b"StarCraft II replay\x1b11".to_vec())),
        (
            "m_version",
            V::s(&[
                ("m_flags", V::I(1)),
                ("m_major", V::I(5)),
                ("m_minor", V::I(r.below(20) as i64)),
                ("m_revision", V::I(r.below(12) as i64)),
                ("m_build", V::I(version as i64 + r.below(50) as i64)),
                ("m_base_build", V::I(version as i64)),
            ]),
        ),
        ("m_type", V::I(2)),
        ("m_elapsed_game_loops", V::I(r.skewed(60000) as i64)),
        ("m_use_scaled_time", V::B(r.chance(1, 2))),
        ("m_ngdp_root_key", md5(r)),
        ("m_data_build_num", V::I(version as i64)),
        ("m_replay_compatibility_hash", md5(r)),
        ("m_ngdp_root_key_is_dev_data", V::B(r.chance(1, 2))),
    ])
}
fn cache_handle(r: &mut Rng) -> Vec<u8> {
    let mut b = b"s2ma\0\0".to_vec();
    b.extend(*r.pick(&[b"EU", b"US", b"KR", b"XX"]));
    b.extend(r.bytes(32));
    b
}
pub struct Lobby {
    /// user ids of the human players and observers
    pub users: Vec<u8>,
    pub players: usize,
}
/// Set-up data and details of one match, consistent with each other.
pub fn gen_lobby(r: &mut Rng, title: &str, names: &[String]) -> (V, V, Lobby) {
    let sc = s87702();
    let players = names.len();
    let humans = 1 + r.idx(players);
    let extra = r.idx(3); // observers / open slots
    let nslots = players + extra;
    let mut init = sc.gen_named(r, "ReplaySInitData", 2);
    let s = init.fm("m_sync_lobby_state");
    let mut ids: Vec<u8> = (0..16).collect();
    if r.chance(1, 2) {
        r.shuffle(&mut ids);
    }
    let mut slot_ids: Vec<u8> = (0..16).collect();
    if r.chance(1, 3) {
        r.shuffle(&mut slot_ids);
    }
    // user_initial_data: one per user id, sometimes fewer
    let n = match r.below(6) {
        0 => r.idx(nslots + 1),
        1 | 2 => nslots,
        _ => 16,
    };
    let mut uid = vec![];
    for i in 0..n {
        let mut u = sc.gen_named(r, "SUserInitialData", 12);
        u.set("m_name", V::y(&format!("u{i}{}", names.get(i).map(|s| s.as_str()).unwrap_or(""))));
        uid.push(u);
    }
    s.set("m_user_initial_data", V::L(uid));
    let gd = s.fm("m_game_description");
    gd.set("m_map_file_name", V::y("map.SC2Map"));
    let handles: Vec<Vec<u8>> = (0..1 + r.idx(3)).map(|_| cache_handle(r)).collect();
    gd.set("m_cache_handles", V::L(handles.iter().map(|h| V::Y(h.clone())).collect()));
    let ls = s.fm("m_lobby_state");
    let mut slots = vec![];
    let mut users = vec![];
    for i in 0..nslots {
        let mut sl = sc.gen_named(r, "GameSLobbySlot", 3);
        let human = i < humans || (i >= players && r.chance(1, 2));
        sl.set("m_user_id", V::opt(human.then(|| V::I(ids[i] as i64))));
        sl.set("m_working_set_slot_id", V::opt(if i < players || r.chance(1, 2) { Some(V::I(slot_ids[i] as i64)) } else { None }));
        if human && i < players {
            users.push(ids[i]);
        }
        slots.push(sl);
    }
    let mut perm: Vec<usize> = (0..nslots).collect();
    if r.chance(1, 4) {
        r.shuffle(&mut perm);
    }
    ls.set("m_slots", V::L(perm.iter().map(|i| slots[*i].clone()).collect()));
    let mut list = vec![];
    for (i, name) in names.iter().enumerate() {
        list.push(V::s(&[
            ("m_name", V::y(name)),
            (
                "m_toon",
                V::s(&[
                    ("m_region", V::I(r.below(6) as i64)),
                    ("m_program_id", V::I(0x5332)),
                    ("m_realm", V::I(r.below(3) as i64)),
                    ("m_id", V::I(r.skewed(1 << 40) as i64)),
                ]),
            ),
            ("m_race", V::y(r.pick(&["Terran", "Zerg", "Protoss", "漢"]))),
            (
                "m_color",
                V::s(&[
                    ("m_a", V::I(255)),
                    ("m_r", V::I(r.below(256) as i64)),
                    ("m_g", V::I(r.below(256) as i64)),
                    ("m_b", V::I(r.below(256) as i64)),
                ]),
            ),
            ("m_control", V::I(2 + (i >= humans) as i64)),
            ("m_team_id", V::I((i % 2) as i64)),
            ("m_handicap", V::I(r.below(101) as i64)),
            ("m_observe", V::I(if r.chance(1, 8) { 1 + r.below(2) as i64 } else { 0 })),
            ("m_result", V::I(r.below(4) as i64)),
            // a player without slot id appears in no table
            ("m_working_set_slot_id", V::opt((!r.chance(1, 25)).then(|| V::I(slot_ids[i] as i64)))),
            ("m_hero", V::y(r.pick(&["", "hero"]))),
        ]));
    }
    // 100 ns ticks since 1601
    let time = 131_000_000_000_000_000 + r.below(4_000_000_000_000_000) as i64;
    let details = V::s(&[
        ("m_player_list", V::some(V::L(list))),
        ("m_title", V::y(title)),
        ("m_difficulty", V::y("")),
        ("m_thumbnail", V::s(&[("m_file", V::y("Minimap.tga"))])),
        ("m_is_blizzard_map", V::B(r.chance(1, 2))),
        ("m_time_utc", V::I(time)),
        ("m_time_local_offset", V::I((r.below(27) as i64 - 12) * 36_000_000_000)),
        ("m_description", V::y("")),
        ("m_image_file_path", V::y("")),
        ("m_map_file_name", V::y("")),
        ("m_cache_handles", V::some(V::L(handles.into_iter().map(V::Y).collect()))),
        ("m_mini_save", V::B(false)),
        ("m_game_speed", V::I(r.below(5) as i64)),
        ("m_default_difficulty", V::I(r.below(10) as i64)),
        ("m_mod_paths", V::O(None)),
        ("m_campaign_index", V::I(0)),
        ("m_restart_as_transition_map", V::opt(r.chance(1, 2).then(|| V::B(false)))),
        ("m_disable_recover_game", V::B(r.chance(1, 9))),
    ]);
    (init, details, Lobby { users, players })
}

#[derive(Clone)]
struct U {
    idx: u32,
    rec: u32,
    live: bool,
    init: bool,
}
/// A history: units come, change and go, users select, group and command them.
pub fn gen_history(r: &mut Rng, cfg: &Cfg, version: u32, lobby: &Lobby) -> (Vec<Ev>, Vec<Ev>) {
    let sc = schema_for(version);
    let mut all: Vec<(u64, bool, u8, String, V)> = vec![];
    let mut loop_ = 0u64;
    let mut units: Vec<U> = vec![];
    let mut next_idx = 1 + r.below(200) as u32;
    let npl = lobby.players.max(1) as u64;
    let mut users = lobby.users.clone();
    if users.is_empty() || r.chance(1, 12) {
        users.push(17); // acts, but is in no lobby slot
    }
    // unique tracker ids
    let mut ids: Vec<u8> = {
        let mut v: Vec<u8> = (1..=15).collect();
        if r.chance(1, 3) {
            r.shuffle(&mut v);
        }
        v
    };
    let i = |x: i64| V::I(x);
    for (k, u) in users.iter().enumerate() {
        if r.chance(9, 10) {
            all.push((
                0,
                true,
                0,
                "PlayerSetup".into(),
                V::s(&[
                    ("player_id", i(ids[k] as i64)),
                    ("m_type", i(1)),
                    ("user_id", V::opt((!r.chance(1, 15)).then(|| V::I(*u as i64)))),
                    ("slot_id", V::opt((!r.chance(1, 15)).then(|| V::I(k as i64)))),
                ]),
            ));
        }
    }
    let start = if cfg.sorted_ties { 3 } else { 1 };
    // a user set up again later, as another tracker player
    let again = (r.chance(1, 5) && !users.is_empty()).then(|| (1 + r.idx(cfg.events.max(2)), r.idx(users.len())));
    let mean = *r.pick(&[0u64, 1, 3, 16, 70, 900]);
    let focus = r.below(6); // swarm: some histories concentrate on few kinds
    let few_groups = r.chance(1, 2);
    let opener = (2 + r.below(6) as usize).min(cfg.events);
    for step in 0..cfg.events {
        if step > 0 || start > 0 {
            let d = if cfg.big_loops && r.chance(1, 60) {
                *r.pick(&[63u64, 64, 16383, 16384, 70000, 4194303, 4194304, 20_000_001, 16_777_216])
            } else if mean == 0 {
                r.chance(1, 6) as u64
            } else {
                r.below(2 * mean + 1)
            };
            loop_ += d;
        }
        if let Some((at, k)) = again
            && at == step
        {
            let free: Vec<u8> = ids[users.len().min(15)..].to_vec();
            if !free.is_empty() {
                let id = *r.pick(&free);
                all.push((loop_ + start, true, 0, "PlayerSetup".into(), V::s(&[("player_id", i(id as i64)), ("m_type", i(1)), ("user_id", V::opt(Some(V::I(users[k] as i64)))), ("slot_id", V::opt(r.chance(2, 3).then(|| V::I(15 - k as i64))))])));
                if r.chance(2, 3) {
                    ids[k] = id;
                }
            }
        }
        let live: Vec<U> = units.iter().filter(|u| u.live).cloned().collect();
        let more = npl + r.chance(1, 6) as u64;
        let pl = ids[r.below(more) as usize % 15] as i64;
        // now and then the neutral or the hostile player
        let pl = if r.chance(1, 12) { *r.pick(&[0, 0, 0, 16]) } else { pl };
        let mut tr = |n: &str, v: V| all.push((loop_ + start, true, 0, n.to_string(), v));
        let xy = |r: &mut Rng| (V::I(r.below(256) as i64), V::I(r.below(256) as i64));
        let game = step >= opener && r.below(100) < cfg.game_pct;
        if !game {
            let kinds = if r.chance(cfg.noise_pct, 100) { 20 } else { 14 };
            let kind = if step < opener { 0 } else { r.below(kinds) };
            match kind {
                0..=3 => {
                    // birth or warp-in, of a fresh index or a recycled one
                    let dead: Vec<usize> = (0..units.len()).filter(|k| !units[*k].live).collect();
                    let k = if !dead.is_empty() && r.chance(2, 5) {
                        dead[r.idx(dead.len())]
                    } else {
                        units.push(U { idx: next_idx, rec: 1 + r.skewed(40) as u32, live: false, init: false });
                        next_idx += 1 + r.skewed(7) as u32;
                        if next_idx > 16000 {
                            next_idx = 1;
                        }
                        units.len() - 1
                    };
                    let init = r.chance(1, 4);
                    units[k].live = true;
                    units[k].init = init;
                    let (x, y) = xy(r);
                    let mut f = vec![
                        ("unit_tag_index", i(units[k].idx as i64)),
                        ("unit_tag_recycle", i(units[k].rec as i64)),
                        ("unit_type_name", uname(r)),
                        ("control_player_id", i(pl)),
                        ("upkeep_player_id", i(pl)),
                        ("x", x),
                        ("y", y),
                    ];
                    if init {
                        tr("UnitInit", V::s(&f));
                    } else {
                        let c = if r.chance(1, 3) && !live.is_empty() { Some(r.pick(&live).clone()) } else { None };
                        f.push(("creator_unit_tag_index", V::opt(c.as_ref().map(|c| V::I(c.idx as i64)))));
                        f.push(("creator_unit_tag_recycle", V::opt(c.as_ref().map(|c| V::I(c.rec as i64)))));
                        f.push(("creator_ability_name", V::opt(c.map(|_| V::y(r.pick(&["LarvaTrain", "x", ""]))))));
                        tr("UnitBorn", V::s(&f));
                    }
                }
                4 | 5 | 6 if !live.is_empty() => {
                    let u = r.pick(&live).clone();
                    let k = if r.chance(1, 8) { Some(u.clone()) } else if r.chance(1, 2) { Some(r.pick(&live).clone()) } else { None };
                    let k2 = if r.chance(1, 9) { Some(U { idx: 9000, rec: 1, live: false, init: false }) } else { k };
                    let (x, y) = xy(r);
                    // rarely: a death of something never seen
                    let ghost = r.chance(1, 25);
                    tr(
                        "UnitDied",
                        V::s(&[
                            ("unit_tag_index", i(if ghost { 9001 } else { u.idx as i64 })),
                            ("unit_tag_recycle", i(u.rec as i64)),
                            ("killer_player_id", V::opt(k2.is_some().then(|| V::I(pl)))),
                            ("x", x),
                            ("y", y),
                            ("killer_unit_tag_index", V::opt(k2.as_ref().map(|k| V::I(k.idx as i64)))),
                            ("killer_unit_tag_recycle", V::opt(k2.as_ref().map(|k| V::I(k.rec as i64)))),
                        ]),
                    );
                    if !ghost {
                        let w = units.iter_mut().find(|w| w.idx == u.idx).unwrap();
                        w.live = false;
                        w.rec += 1;
                    }
                }
                7 | 8 if !live.is_empty() => {
                    let u = r.pick(&live).clone();
                    let idx = if r.chance(1, 30) { 9100 + r.below(3) as i64 } else { u.idx as i64 };
                    tr(
                        "UnitTypeChange",
                        V::s(&[("unit_tag_index", i(idx)), ("unit_tag_recycle", i(u.rec as i64)), ("unit_type_name", uname(r))]),
                    );
                }
                9 | 10 if !live.is_empty() => {
                    let inits: Vec<&U> = live.iter().filter(|u| u.init).collect();
                    let u = if inits.is_empty() || r.chance(1, 5) { r.pick(&live).clone() } else { (*r.pick(&inits)).clone() };
                    let idx = if r.chance(1, 30) { 9200 } else { u.idx as i64 };
                    if let Some(w) = units.iter_mut().find(|w| w.idx == u.idx) {
                        w.init = false;
                    }
                    tr("UnitDone", V::s(&[("unit_tag_index", i(idx)), ("unit_tag_recycle", i(u.rec as i64))]));
                }
                11 | 12 if !live.is_empty() => {
                    let mut p: Vec<u32> = (0..1 + r.idx(live.len().min(6))).map(|_| r.pick(&live).idx).collect();
                    if r.chance(1, 10) {
                        p.push(9300);
                    }
                    p.sort();
                    if !r.chance(1, 5) {
                        p.dedup();
                    }
                    let first = if r.chance(1, 2) { p[0] } else { r.below(p[0] as u64 + 1) as u32 };
                    let mut at = first as i64;
                    let mut items = vec![];
                    for x in p {
                        items.push(V::I(x as i64 - at));
                        at = x as i64;
                        items.push(V::I(r.below(256) as i64));
                        items.push(V::I(r.below(256) as i64));
                    }
                    tr("UnitPosition", V::s(&[("first_unit_index", i(first as i64)), ("items", V::L(items))]));
                }
                13 => {
                    tr(
                        "Upgrade",
                        V::s(&[
                            ("player_id", i(pl)),
                            ("upgrade_type_name", V::y(r.pick(&["SprayTerran", "Stimpack", "ZergMissileWeaponsLevel1", "é"]))),
                            ("count", i(r.below(3) as i64 - 1)),
                        ]),
                    );
                }
                14 if !live.is_empty() => {
                    let u = r.pick(&live).clone();
                    tr(
                        "UnitOwnerChange",
                        V::s(&[
                            ("unit_tag_index", i(u.idx as i64)),
                            ("unit_tag_recycle", i(u.rec as i64)),
                            ("control_player_id", i(pl)),
                            ("upkeep_player_id", i(pl)),
                        ]),
                    );
                }
                15 if !live.is_empty() => {
                    // an already known unit starts morphing
                    let u = r.pick(&live).clone();
                    let (x, y) = xy(r);
                    tr(
                        "UnitInit",
                        V::s(&[
                            ("unit_tag_index", i(u.idx as i64)),
                            ("unit_tag_recycle", i(u.rec as i64)),
                            ("unit_type_name", uname(r)),
                            ("control_player_id", i(pl)),
                            ("upkeep_player_id", i(pl)),
                            ("x", x),
                            ("y", y),
                        ]),
                    );
                    units.iter_mut().find(|w| w.idx == u.idx).unwrap().init = true;
                }
                _ => {
                    let big = r.chance(1, 4);
                    let stats = V::S(
                        STAT_NAMES
                            .iter()
                            .enumerate()
                            .map(|(k, n)| {
                                let x = if big { r.skewed(i32::MAX as u64) as i64 } else { r.below(3000) as i64 + k as i64 };
                                (n.to_string(), V::I(if r.chance(1, 20) { -x } else { x }))
                            })
                            .collect(),
                    );
                    tr("PlayerStats", V::s(&[("player_id", i(pl)), ("stats", stats)]));
                }
            }
            continue;
        }
        // user side
        let u = if focus == 2 && r.chance(3, 4) { users[0] } else { *r.pick(&users) };
        let tag = |w: &U| (w.idx << 18 | w.rec) as i64;
        let pick_tags = |r: &mut Rng, n: usize| -> Vec<V> {
            let mut t: Vec<i64> = vec![];
            for _ in 0..n {
                if units.is_empty() {
                    break;
                }
                let pool: &Vec<U> = if live.is_empty() || r.chance(1, 8) { &units } else { &live };
                t.push(tag(r.pick(pool)));
            }
            // rarely: a unit that was not announced yet
            if r.chance(1, 24) {
                t.push((9100 + r.below(3) as i64) << 18 | 1);
            }
            t.sort();
            t.dedup();
            if r.chance(1, 4) {
                r.shuffle(&mut t);
            }
            t.into_iter().map(V::I).collect()
        };
        let coord = |r: &mut Rng| {
            let mut c = sc.gen_named(r, "GameSMapCoord3D", 4);
            if r.chance(2, 3) {
                c.set("x", V::I(r.below(256 * 4096) as i64));
                c.set("y", V::I(r.below(256 * 4096) as i64));
            }
            c
        };
        let kinds = if r.chance(cfg.noise_pct, 100) { 22 } else { 15 };
        let kind = match focus {
            0 => r.below(10),
            1 => *r.pick(&[0u64, 1, 5, 6, 7]),
            2 => *r.pick(&[0u64, 1, 10, 10, 10, 11, 12, 13, 9]),
            _ => r.below(kinds),
        };
        let mut push = |n: &str, v: V| all.push((loop_ + start, false, u, n.to_string(), v));
        match kind {
            0..=3 => {
                // selection, mostly the active one
                let mut v = sc.gen_named(r, "GameSSelectionDeltaEvent", 3);
                let g = if r.chance(5, 6) || focus == 2 { 10 } else { r.below(if few_groups { 3 } else { 10 }) };
                v.set("m_control_group_id", V::I(if r.chance(1, 60) { 11 + r.below(5) as i64 } else { g as i64 }));
                let n = if r.chance(1, 8) { 0 } else { 1 + r.skewed(6) as usize };
                let t = pick_tags(r, n);
                v.fm("m_delta").set("m_add_unit_tags", V::L(t));
                push("ESelectionDelta", v);
            }
            4..=9 => {
                let mut v = sc.gen_named(r, "GameSControlGroupUpdateEvent", 3);
                let g = if r.chance(1, 60) {
                    10 + r.below(6)
                } else if r.chance(1, 6) {
                    9
                } else {
                    r.below(if few_groups { 3 } else { 10 })
                };
                v.set("m_control_group_index", V::I(g as i64));
                let k = *r.pick(&["ESet", "EAppend", "ERecall", "ERecall", "EClear", "ESetAndSteal", "EAppendAndSteal"]);
                v.set("m_control_group_update", V::e(k));
                push("EControlGroupUpdate", v);
            }
            10 | 11 => {
                let mut v = sc.gen_named(r, "GameSCmdEvent", 3);
                if r.chance(4, 5) {
                    let mut a = sc.gen_named(r, "GameSCmdAbil", 3);
                    a.set("m_abil_link", V::I(link(r) as i64));
                    a.set("m_abil_cmd_index", V::I(r.skewed(3) as i64));
                    v.set("m_abil", V::some(a));
                }
                if let V::C(k, d) = v.fm("m_data")
                    && k.contains("TargetUnit")
                {
                    let pool: &Vec<U> = if live.is_empty() || r.chance(1, 8) { &units } else { &live };
                    if !pool.is_empty() && r.chance(9, 10) {
                        d.set("m_tag", V::I(tag(r.pick(pool))));
                    }
                }
                push("ECmd", v);
            }
            12 => {
                let mut v = sc.gen_named(r, "GameSCmdUpdateTargetPointEvent", 3);
                v.set("m_target", coord(r));
                push("ECmdUpdateTargetPoint", v);
            }
            13 => {
                let mut v = sc.gen_named(r, "GameSCmdUpdateTargetUnitEvent", 3);
                let pool: &Vec<U> = if live.is_empty() || r.chance(1, 8) { &units } else { &live };
                if !pool.is_empty() && r.chance(9, 10) {
                    v.fm("m_target").set("m_tag", V::I(tag(r.pick(pool))));
                }
                push("ECmdUpdateTargetUnit", v);
            }
            14 => {
                if r.chance(1, 3) {
                    push("ECameraSave", sc.gen_named(r, "GameSCameraSaveEvent", 3));
                } else {
                    push("ECameraUpdate", sc.gen_named(r, "GameSCameraUpdateEvent", 3));
                }
            }
            _ => {
                // any event the protocol knows
                let v = sc.gen_named(r, "GameEEventId", 4);
                if let V::C(n, x) = v {
                    match n.as_str() {
                        "ESelectionDelta" | "EControlGroupUpdate" => push("EUserFinishedLoadingSync", {
                            let V::C(_, v) = find_event(sc, r, "EUserFinishedLoadingSync") else { unreachable!() };
                            *v
                        }),
                        n => push(n, *x),
                    }
                }
            }
        }
    }
    // the last records are short ones at times
    if !all.is_empty() && cfg.game_pct > 0 && r.chance(1, 3) {
        for _ in 0..1 + r.below(2) {
            let u = *r.pick(&users);
            let best = (0..12)
                .map(|_| if r.chance(1, 2) { find_event(sc, r, "ECommandManagerState") } else { sc.gen_named(r, "GameEEventId", 1) })
                .filter(|v| !matches!(v.c_name(), "ESelectionDelta" | "EControlGroupUpdate"))
                .min_by_key(|v| {
                    let mut w = BitW::default();
                    sc.enc(&mut w, &Ty::Ref("GameEEventId".into()), v);
                    (w.buf.len(), codec_public(v))
                });
            if let Some(V::C(n, x)) = best {
                loop_ += r.below(3);
                all.push((loop_ + start, false, u, n, *x));
            }
        }
    }
    let mut out = (vec![], vec![]);
    let mut at = (0u64, 0u64);
    for (l, tracker, u, n, v) in all {
        let w = if r.chance(1, 40) { r.below(4) as u8 } else { 9 };
        let (o, a) = if tracker { (&mut out.0, &mut at.0) } else { (&mut out.1, &mut at.1) };
        o.push(Ev { d: (l - *a) as u32, w, u, n, v });
        *a = l;
    }
    out
}
fn codec_public(v: &V) -> bool {
    game_public(v.c_name()).is_none()
}
pub fn find_event(sc: &Schema, r: &mut Rng, name: &str) -> V {
    let Ty::Ch(_, vs) = sc.get("GameEEventId") else { panic!() };
    let c = vs.iter().find(|x| x.1 == name).unwrap_or_else(|| panic!("no event {name}"));
    V::c(name, sc.gen_v(r, &c.2, 4))
}
pub fn gen_msgs(r: &mut Rng, version: u32, users: &[u8], n: usize) -> Vec<Ev> {
    let sc = schema_for(version);
    (0..n)
        .map(|_| {
            let mut v = sc.gen_named(r, "GameEMessageId", 20);
            while r.chance(1, 2) && v.c_name() != "EChat" {
                v = sc.gen_named(r, "GameEMessageId", 20);
            }
            let V::C(n, x) = v else { unreachable!() };
            let d = if r.chance(1, 10) { r.skewed(5_000_000) } else { r.below(200) } as u32;
            Ev { d, w: 9, u: if users.is_empty() { 0 } else { *r.pick(users) }, n, v: *x }
        })
        .collect()
}
pub fn gen_mpq(r: &mut Rng) -> MpqOpts {
    MpqOpts {
        comp: if r.chance(2, 3) { 2 } else { 0 },
        level: 1 + r.below(9) as u32,
        single: r.chance(2, 3),
        shift: r.below(6) as u16,
        pad: if r.chance(1, 2) { r.below(600) as u16 } else { 0 },
        format: *r.pick(&[0u16, 1, 3]),
        order: r.below(6) as u8,
        extra: r.below(3) as u8,
    }
}
pub fn player_names(r: &mut Rng, n: usize) -> Vec<String> {
    (0..n)
        .map(|i| {
            let base = r.pick(&["Alice", "Bob", "Zoë", "A.I. 1", "漢字", "<sp/>x", "eve"]).to_string();
            format!("{base}{i}")
        })
        .collect()
}
pub fn gen_match(r: &mut Rng, cfg: &Cfg) -> Match {
    let v = if r.chance(1, 4) { *r.pick(&VERSIONS) } else { 87702 };
    gen_match_v(r, cfg, v)
}
pub fn gen_match_v(r: &mut Rng, cfg: &Cfg, version: u32) -> Match {
    let k = 1 + r.idx(5);
    let names = player_names(r, k);
    let title = r.pick(&["Ley Lines", "Oxide LE", "Ümläut", "[TLMC] X"]).to_string();
    gen_match_with(r, cfg, version, &names, &title)
}
pub fn gen_match_with(r: &mut Rng, cfg: &Cfg, version: u32, names: &[String], title: &str) -> Match {
    let header = gen_header(r, version);
    let (init, details, lobby) = gen_lobby(r, title, names);
    let (tracker, game) = gen_history(r, cfg, version, &lobby);
    let msgs = gen_msgs(r, version, &lobby.users, cfg.msgs);
    Match { header, details, init, tracker, game, msgs, mpq: gen_mpq(r) }
}

// ------------------------------------------------------------------ balance data
/// JSON form of a balance unit.
/// the number of an ability: few, so that commands and balance data meet
fn link(r: &mut Rng) -> u64 {
    if r.chance(2, 3) { r.below(3) } else { r.below(12) }
}
pub fn gen_balance_unit(r: &mut Rng, id: &str, rich: bool) -> Value {
    let rf = |r: &mut Rng| (r.below(4000) as f64 + 1.0) / 16.0;
    let meta = |r: &mut Rng, kind: bool| {
        let mut m = json!({"@name": format!("{}", r.below(999)), "@tooltip": format!("{}", r.below(999)), "@icon": null, "@race": null, "@hotkey": null, "@source": null, "@index": null, "@type": null});
        if kind && r.chance(1, 2) {
            m["@type"] = "passive".into();
        }
        if r.chance(1, 2) {
            m["@icon"] = "btn-x".into();
            m["@race"] = "Zerg".into();
            m["@index"] = r.below(500).into();
        }
        m
    };
    let cost = |r: &mut Rng| {
        json!({"@minerals": r.below(500), "@vespene": if r.chance(1,2) {json!(r.below(500))} else {Value::Null}, "@supply": null,
        "@time": rf(r), "@energy": null, "@cooldown": null, "@life": null})
    };
    let mut abil = vec![];
    for k in 0..r.below(if rich { 4 } else { 3 }) {
        let cmds: Vec<Value> = (0..r.below(4))
            .map(|c| {
                let idc = if r.chance(1, 6) { Value::Null } else { format!("Cmd{k}{c}").into() };
                json!({"@id": idc, "@index": c, "meta": meta(r, true)})
            })
            .collect();
        abil.push(json!({"@id": format!("Ab{k}{id}"), "@index": if r.chance(1,8) {Value::Null} else {json!(link(r))}, "command": cmds}));
    }
    let refs = |r: &mut Rng, n: u64| -> Vec<Value> {
        (0..r.below(n)).map(|_| json!({"@id": *r.pick(&NAMES), "@name": format!("{}", r.below(900))})).collect()
    };
    let uref = |r: &mut Rng| -> Vec<Value> {
        (0..r.below(3))
            .map(|_| {
                json!({"@id": *r.pick(&NAMES), "@name": null, "@ability": link(r), "@index": r.skewed(3), "meta": meta(r, false), "cost": cost(r), "requires": {"unit": []}})
            })
            .collect()
    };
    let mut u = json!({
        "@id": id,
        "meta": meta(r, false),
        "life": {"@start": r.below(1500), "@max": r.below(1500), "@regenRate": null},
        "shields": null,
        "armor": {"@start": r.below(3), "@max": r.below(5)},
        "shieldArmor": {"@start": 0, "@max": 3},
        "requires": {"unit": refs(r, 2)},
        "cost": cost(r),
        "researches": null,
        "movement": null,
        "score": {"@build": r.below(600), "@kill": null},
        "misc": {"@radius": if r.chance(1,5) {Value::Null} else {json!(r.below(64) as f64 / 16.0 + 0.0625)}, "@cargoSize": r.below(8), "@footprint": null,
            "@sightRadius": rf(r), "@supply": null, "@range": null, "@speed": null, "@targets": null, "@count": null, "@cargoCapacity": null},
        "producer": null,
        "attributes": {"attribute": []},
        "strengths": {"unit": refs(r, 3)},
        "weaknesses": {"unit": []},
        "weapons": {"weapon": []},
        "abilities": {"ability": abil},
        "builds": {"unit": uref(r)},
        "trains": {"unit": uref(r)},
        "upgrades": {"upgrade": []},
    });
    if r.chance(1, 2) {
        u["shields"] = json!({"@start": 10, "@max": 20, "@regenRate": rf(r), "@delay": if r.chance(1,2) {json!(rf(r))} else {Value::Null}});
    }
    if r.chance(1, 3) {
        u["movement"] = json!({"@type": "Ground", "@speed": rf(r), "@acceleration": 1000.0, "@deceleration": 0.0, "@turnRate": null});
    }
    if r.chance(1, 3) {
        u["researches"] = json!({"upgrade": [{"@id": "R", "@ability": link(r), "@index": r.skewed(3), "meta": meta(r, false), "cost": cost(r)}]});
    }
    if rich && r.chance(1, 3) {
        u["producer"] = json!({"@id": "Larva", "@name": "1"});
        u["attributes"] = json!({"attribute": [{"@type": "Light"}, {"@type": "Biological"}]});
        u["upgrades"] = json!({"upgrade": [{"@id": "Up", "level": []}]});
    }
    u
}
/// [[version, name, unit], ...]
pub fn gen_balance(r: &mut Rng, versions: &[u32], per: usize, rich: bool) -> Value {
    let mut o = vec![];
    for v in versions {
        let mut seen = std::collections::BTreeSet::new();
        for _ in 0..per {
            let n = *r.pick(&NAMES);
            if seen.insert(n) {
                o.push(json!([v, n, gen_balance_unit(r, n, rich)]));
            }
        }
    }
    o.into()
}
