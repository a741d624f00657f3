//! Exported tables: reading them from the simulated disk, and what they must hold.
use crate::codec::*;
use crate::model::{self, Model, item};
use crate::world::Match;
use arrow::array::*;
use arrow::datatypes::DataType;
use serde_json::{Map, Value, json};
use std::collections::BTreeMap;

pub const TABLES: [&str; 7] =
    ["details", "stats", "upgrades", "unit_born", "unit_died", "cmd_target_point", "cmd_target_unit"];

fn cell(a: &ArrayRef, i: usize) -> Result<Value, String> {
    if a.is_null(i) {
        return Ok(Value::Null);
    }
    macro_rules! p {
        ($t:ty) => {
            json!(a.as_any().downcast_ref::<$t>().ok_or("column type")?.value(i))
        };
    }
    Ok(match a.data_type() {
        DataType::Boolean => p!(BooleanArray),
        DataType::UInt8 => p!(UInt8Array),
        DataType::UInt16 => p!(UInt16Array),
        DataType::UInt32 => p!(UInt32Array),
        DataType::UInt64 => p!(UInt64Array),
        DataType::Int8 => p!(Int8Array),
        DataType::Int16 => p!(Int16Array),
        DataType::Int32 => p!(Int32Array),
        DataType::Int64 => p!(Int64Array),
        DataType::Float32 => p!(Float32Array),
        DataType::Utf8 => p!(StringArray),
        DataType::LargeUtf8 => p!(LargeStringArray),
        DataType::Timestamp(_, _) => p!(TimestampNanosecondArray),
        t => return Err(format!("column of type {t}")),
    })
}
/// All rows of a table file; Err: a reader can tell that the file is not complete.
pub fn read(b: &[u8]) -> Result<Vec<Value>, String> {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| read_(b)));
    r.unwrap_or_else(|_| Err("the table reader panicked".into()))
}
fn read_(b: &[u8]) -> Result<Vec<Value>, String> {
    let rd = arrow::ipc::reader::FileReader::try_new(std::io::Cursor::new(b), None).map_err(|e| e.to_string())?;
    let mut o = vec![];
    for batch in rd {
        let batch = batch.map_err(|e| e.to_string())?;
        let sch = batch.schema();
        for i in 0..batch.num_rows() {
            let mut row = Map::new();
            for (c, f) in batch.columns().iter().zip(sch.fields()) {
                row.insert(f.name().clone(), cell(c, i)?);
            }
            o.push(Value::Object(row));
        }
    }
    Ok(o)
}
/// Rows of one table by match identifier, order kept.
pub fn by_match(rows: &[Value]) -> BTreeMap<u64, Vec<Value>> {
    let mut o: BTreeMap<u64, Vec<Value>> = BTreeMap::new();
    for r in rows {
        o.entry(r["ext_fs_id"].as_u64().unwrap_or(u64::MAX)).or_default().push(r.clone());
    }
    o
}
pub fn no_id(r: &Value) -> Value {
    let mut r = r.clone();
    if let Some(o) = r.as_object_mut() {
        o.remove("ext_fs_id");
    }
    r
}
fn seconds(lo: i64) -> u32 {
    (lo as f32 * 68.58391 / 1000.0) as u32
}
fn tracker_seconds(lo: i64) -> u32 {
    seconds((1.0f32 * lo as f32) as i64)
}
fn unhex(s: &str) -> String {
    s.as_bytes()
        .chunks(2)
        .map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap_or("0"), 16).unwrap_or(0) as char)
        .collect()
}
/// What every table must hold for one match, without the numeric identifier.
/// A cell may be {"any": [...]} where the recorded data leaves a choice.
fn observe(p: &crate::codec::V) -> i64 {
    match p.f("m_observe") {
        crate::codec::V::C(n, _) => ["ENone", "ESpectator", "EReferee"].iter().position(|x| x == n).expect("oracle: observe") as i64,
        v => v.i(),
    }
}
/// The rows one match has in every table.
pub fn want(m: &Match, bal: &Value, steps: &[Value], file: &str, sha: &str) -> BTreeMap<&'static str, Vec<Value>> {
    let mut o: BTreeMap<&'static str, Vec<Value>> = TABLES.iter().map(|t| (*t, vec![])).collect();
    let d = &m.details;
    let gd = m.init.f("m_sync_lobby_state").f("m_game_description");
    let micros = d.f("m_time_utc").i() / 10 - 11_644_473_600_000_000 - d.f("m_time_local_offset").i() / 10;
    let handles: Vec<String> = d
        .f("m_cache_handles")
        .o()
        .map(|l| l.l().iter().map(|h| h.bytes().iter().map(|b| format!("{b:02x}")).collect::<String>()).collect())
        .unwrap_or_default();
    let first = handles.first().map(|h| (unhex(&h[..8]), unhex(&h[12..16])));
    let hashes: Vec<&str> = handles.iter().map(|h| &h[16..]).collect();
    for (p, s, _) in model::joined(m) {
        let t = p.f("m_toon");
        let c = p.f("m_color");
        let result = ["Undecided", "Win", "Loss", "Tie"][p.f("m_result").i() as usize & 3];
        o.get_mut("details").unwrap().push(json!({
            "player_name": p.f("m_name").str(),
            "player_toon_region": t.f("m_region").i(),
            "player_toon_program_id": t.f("m_program_id").i(),
            "player_toon_realm": t.f("m_realm").i(),
            "player_toon_id": t.f("m_id").i(),
            "player_race": p.f("m_race").str(),
            "player_color_a": c.f("m_a").i(), "player_color_r": c.f("m_r").i(),
            "player_color_g": c.f("m_g").i(), "player_color_b": c.f("m_b").i(),
            "player_control": p.f("m_control").i(),
            "player_team_id": p.f("m_team_id").i(),
            "player_observe": observe(p),
            "player_result": result,
            "player_working_set_slot_id": p.f("m_working_set_slot_id").oi(),
            "player_hero": p.f("m_hero").str(),
            "title": d.f("m_title").str(),
            "is_blizzard_map": gd.f("m_is_blizzard_map").b(),
            "time_utc": d.f("m_time_utc").i(),
            "time_local_offset": d.f("m_time_local_offset").i(),
            "lobby_slot_user_id": s.f("m_user_id").oi(),
            "lobby_slot_observe": observe(s),
            "lobby_slot_map_size_x": gd.f("m_map_size_x").i(),
            "lobby_slot_map_size_y": gd.f("m_map_size_y").i(),
            "cache_handle_region": first.as_ref().map(|f| f.1.clone()),
            "cache_handle_extension": first.as_ref().map(|f| f.0.clone()),
            "cache_handles": hashes.join(","),
            "ext_fs_sha256": sha, "ext_fs_file_name": file,
            "ext_datetime": micros * 1000,
        }));
    }
    let mut md = Model::new(m, bal);
    for s in steps {
        let Some(it) = item(&s[0]) else { continue };
        let did = md.step(&it);
        let (kind, e) = it.ev.as_object().and_then(|o| o.iter().next()).unwrap();
        let idx = e["unit_tag_index"].as_u64().unwrap_or(0) as u32;
        let (ts, gs) = (tracker_seconds(it.lo), seconds(it.lo));
        match kind.as_str() {
            "PlayerStats" => {
                let mut r = e["stats"].clone();
                r["player_id"] = e["player_id"].clone();
                r["ext_replay_loop"] = it.lo.into();
                r["ext_replay_seconds"] = ts.into();
                o.get_mut("stats").unwrap().push(r);
            }
            "Upgrade" => o.get_mut("upgrades").unwrap().push(json!({
                "player_id": e["player_id"], "name": e["upgrade_type_name"], "count": e["count"],
                "ext_replay_loop": it.lo, "ext_replay_seconds": ts,
            })),
            "UnitBorn" => {
                let creator = did.target.map(|c| md.units[&c].name.clone());
                o.get_mut("unit_born").unwrap().push(json!({
                    "unit_tag_index": e["unit_tag_index"], "unit_tag_recycle": e["unit_tag_recycle"],
                    "unit_type_name": e["unit_type_name"],
                    "control_player_id": e["control_player_id"], "upkeep_player_id": e["upkeep_player_id"],
                    "x": e["x"].as_i64().unwrap_or(0) as f32, "y": e["y"].as_i64().unwrap_or(0) as f32,
                    "creator_unit_tag_index": e["creator_unit_tag_index"],
                    "creator_unit_tag_recycle": e["creator_unit_tag_recycle"],
                    "creator_unit_type_name": creator, "creator_ability_name": e["creator_ability_name"],
                    "ext_replay_loop": it.lo, "ext_replay_seconds": ts, "player_name": md.units[&idx].pname,
                }));
            }
            "UnitDone" | "UnitTypeChange" if md.units.contains_key(&idx) => {
                let u = &md.units[&idx];
                o.get_mut("unit_born").unwrap().push(json!({
                    "unit_tag_index": e["unit_tag_index"], "unit_tag_recycle": e["unit_tag_recycle"],
                    "unit_type_name": u.name, "control_player_id": u.user, "upkeep_player_id": u.user,
                    "x": u.pos[0], "y": u.pos[1],
                    "creator_unit_tag_index": null, "creator_unit_tag_recycle": null,
                    "creator_unit_type_name": did.old_name, "creator_ability_name": u.abil,
                    "ext_replay_loop": it.lo, "ext_replay_seconds": ts, "player_name": u.pname,
                }));
            }
            "UnitDied" => {
                if let Some((_, u)) = &did.died {
                    let killer = match did.target {
                        Some(k) => json!(md.units[&k].name),
                        None if e["killer_unit_tag_index"] == e["unit_tag_index"] => json!({"any": ["", u.name]}),
                        None => json!(""),
                    };
                    o.get_mut("unit_died").unwrap().push(json!({
                        "unit_died_name": u.name, "unit_tag_index": e["unit_tag_index"],
                        "unit_tag_recycle": e["unit_tag_recycle"], "killer_player_id": e["killer_player_id"],
                        "x": e["x"], "y": e["y"], "unit_killer_name": killer,
                        "killer_unit_tag_index": e["killer_unit_tag_index"],
                        "killer_unit_tag_recycle": e["killer_unit_tag_recycle"],
                        "ext_replay_loop": it.lo, "ext_replay_seconds": ts,
                    }));
                }
            }
            "Cmd" => {
                let a = &e["m_abil"];
                // the ability as delivered with the event, or as the unit itself names it
                for (u, own) in &did.cmd {
                    let names = [a["ability"].as_str().unwrap_or(""), own.as_str()];
                    let mut r = json!({
                        "user_id": it.user, "player_name": it.name, "cmd_flags": e["m_cmd_flags"],
                        "abil_link": a["m_abil_link"], "abil_cmd_index": a["m_abil_cmd_index"],
                        "ability": {"any": names}, "sequence": e["m_sequence"],
                        "unit_name": md.units[u].name, "ext_replay_loop": it.lo, "ext_replay_seconds": gs,
                    });
                    if let Some(p) = e["m_data"].get("TargetPoint") {
                        r["unit_group"] = e["m_unit_group"].clone();
                        for k in ["x", "y", "z"] {
                            r[format!("target_point_{k}")] = p[k].clone();
                        }
                        o.get_mut("cmd_target_point").unwrap().push(r);
                    } else if let Some(t) = e["m_data"].get("TargetUnit") {
                        r["target_unit_flags"] = t["m_target_unit_flags"].clone();
                        r["tag"] = t["m_tag"].clone();
                        for k in ["snapshot_unit_link", "snapshot_control_player_id", "snapshot_upkeep_player_id"] {
                            r[k] = t[format!("m_{k}")].clone();
                        }
                        for k in ["x", "y", "z"] {
                            r[format!("snapshot_point_{k}")] = t["m_snapshot_point"][k].clone();
                        }
                        r["target_unit_name"] = did.target.map(|t| md.units[&t].name.clone()).unwrap_or_default().into();
                        o.get_mut("cmd_target_unit").unwrap().push(r);
                    }
                }
            }
            _ => {}
        }
    }
    o
}
/// First difference between wanted and present rows.
pub fn diff_rows(want: &[Value], got: &[Value]) -> Option<String> {
    for (i, (w, g)) in want.iter().zip(got).enumerate() {
        let g = no_id(g);
        let (w, g) = (w.as_object().unwrap(), g.as_object().unwrap());
        for (k, x) in w {
            let y = g.get(k).unwrap_or(&Value::Null);
            let same = match x.get("any") {
                Some(l) => l.as_array().unwrap().contains(y),
                None => x == y || matches!((x.as_f64(), y.as_f64()), (Some(a), Some(b)) if a == b),
            };
            if !same {
                return Some(format!("row {i}: {k} should be {x}, is {y}"));
            }
        }
        if let Some(k) = g.keys().find(|k| !w.contains_key(*k)) {
            return Some(format!("row {i}: unknown column {k}"));
        }
    }
    (want.len() != got.len()).then(|| format!("{} rows instead of {}", got.len(), want.len()))
}

pub fn sha256(b: &[u8]) -> String {
    let mut k = [0u32; 64];
    let mut h = [0u32; 8];
    let (mut n, mut p) = (0, 2u32);
    let frac = |x: f64| ((x - x.floor()) * 4294967296.0) as u32;
    while n < 64 {
        if (2..p).take_while(|q| q * q <= p).all(|q| p % q != 0) {
            if n < 8 {
                h[n] = frac((p as f64).sqrt());
            }
            k[n] = frac((p as f64).cbrt());
            n += 1;
        }
        p += 1;
    }
    let mut m = b.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend((b.len() as u64 * 8).to_be_bytes());
    for c in m.chunks(64) {
        let mut w = [0u32; 64];
        for i in 0..16 {
            w[i] = u32::from_be_bytes(c[i * 4..i * 4 + 4].try_into().unwrap());
        }
        for i in 16..64 {
            let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
        }
        let mut v = h;
        for i in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(k[i]).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            let t2 = s0.wrapping_add(mj);
            v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    h.iter().map(|x| format!("{x:08x}")).collect()
}
