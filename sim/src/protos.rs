//! Protocol descriptions (the JSON of Blizzard's s2protocol) and what a decoder module generated
//! from one has to contain. The reading of a description here is the harness's own.
use crate::sim::rng::Rng;
use serde_json::{Value, json};
use std::collections::BTreeMap;

const WORDS: [&str; 16] = [
    "Unit", "Tag", "Player", "Cmd", "Delta", "Camera", "Alliance", "Bank", "Hero", "Slot", "Race", "Sound", "Trigger", "Point", "Lobby", "Speed",
];
fn camel(r: &mut Rng) -> String {
    let a = *r.pick(&WORDS);
    let b = *r.pick(&WORDS);
    if r.chance(1, 3) { a.into() } else { format!("{a}{b}") }
}
fn member(r: &mut Rng, taken: &mut Vec<String>) -> String {
    loop {
        let c = camel(r);
        let n = format!("m_{}{}", c[..1].to_lowercase(), &c[1..]);
        if !taken.contains(&n) {
            taken.push(n.clone());
            return n;
        }
    }
}
fn named(n: &str) -> Value {
    json!({"type": "UserType", "fullname": n})
}
fn bounds(r: &mut Rng, max_only: bool) -> Value {
    let min = if max_only || r.chance(2, 3) { 0i64 } else { *r.pick(&[1, -1, -128, -2147483648]) };
    let incl = r.chance(1, 2);
    let bits = 2 + r.below(if max_only { 10 } else { 31 });
    let max = (1i64 << bits) - if r.chance(1, 3) { r.below(1 << (bits - 1)) as i64 } else { incl as i64 };
    json!({"type": "MinMaxConstraint", "min": {"evalue": min.to_string(), "inclusive": true}, "max": {"evalue": max.to_string(), "inclusive": incl}})
}
/// declarations beside the modules that belong to the bit packed side
const BESIDE: [&str; 22] = [
    "NNet.TUserId",
    "NNet.ELeaveReason",
    "NNet.CToonHandle",
    "NNet.CFilePath",
    "NNet.CUserName",
    "NNet.CClanTag",
    "NNet.CUserInitialDataArray",
    "NNet.EReconnectStatus",
    "NNet.TUserCount",
    "NNet.CCommanderHandle",
    "NNet.CMountHandle",
    "NNet.CSkinHandle",
    "NNet.CHeroHandle",
    "NNet.TRacePreference",
    "NNet.CArtifactHandle",
    "NNet.TRaceCount",
    "NNet.TRaceId",
    "NNet.SUserInitialData",
    "NNet.CAllowedObserveTypes",
    "NNet.CAllowedRaces",
    "NNet.CCacheHandle",
    "NNet.TTeamPreference",
];
const LISTS: [&str; 3] = ["NNet.Game.CModPaths", "NNet.Game.CPlayerDetailsArray", "NNet.Game.CCacheHandles"];
const BYTE_NAMED: [(&str, &str); 29] = [
    ("NNet.Replay.EReplayType", "u8"),
    ("NNet.Game.TPlayerId", "u8"),
    ("NNet.Game.TControlId", "u8"),
    ("NNet.Replay.Tracker.TUIntMiniBits", "u8"),
    ("NNet.Game.TDifficulty", "u32"),
    ("NNet.Game.THandicap", "u32"),
    ("NNet.Game.TFixedBits", "i32"),
    ("NNet.Replay.CSignature", "Vec<u8>"),
    ("NNet.Replay.Tracker.CatalogName", "Vec<u8>"),
    ("NNet.Game.CCacheHandle", "Vec<u8>"),
    ("NNet.CFilePath", "Vec<u8>"),
    ("NNet.Game.EResultDetails", "GameEResultDetails"),
    ("NNet.Game.EGameSpeed", "GameEGameSpeed"),
    ("NNet.Game.SThumbnail", "GameSThumbnail"),
    ("NNet.Game.SColor", "GameSColor"),
    ("NNet.uint8", "u8"),
    ("NNet.uint6", "u8"),
    ("NNet.uint32", "u32"),
    ("NNet.uint14", "u32"),
    ("NNet.uint22", "u32"),
    ("NNet.int32", "i32"),
    ("NNet.int64", "i64"),
    ("NNet.uint64", "u64"),
    ("NNet.SVersion", "SVersion"),
    ("NNet.SMD5", "Smd5"),
    ("NNet.EObserve", "EObserve"),
    ("NNet.Game.TColorId", "i64"),
    ("NNet.Game.TTeamId", "u8"),
    ("NNet.CUserName", "Vec<u8>"),
];
/// a field type both encodings know
fn common_ti(r: &mut Rng) -> Value {
    let n = |r: &mut Rng| named(r.pick(&BYTE_NAMED).0);
    match r.below(6) {
        0 => json!({"type": "BoolType"}),
        1 => json!({"type": "FourCCType"}),
        2 => json!({"type": "OptionalType", "type_info": n(r)}),
        3 => json!({"type": "ArrayType", "element_type": n(r), "bounds": bounds(r, true)}),
        _ => n(r),
    }
}
fn byte_ti(r: &mut Rng) -> Value {
    match r.below(8) {
        0 => json!({"type": *r.pick(&["BlobType", "StringType"])}),
        1 => json!({"type": "OptionalType", "type_info": {"type": *r.pick(&["BoolType", "BlobType", "FourCCType"])}}),
        2 => json!({"type": "OptionalType", "type_info": {"type": "ArrayType", "element_type": named(r.pick(&BYTE_NAMED).0)}}),
        3 => named(*r.pick(&LISTS)),
        _ => common_ti(r),
    }
}
fn bit_ti(r: &mut Rng, known: &[String]) -> Value {
    let k = r.pick(known).clone();
    match r.below(10) {
        9 => json!({"type": "DynArrayType", "element_type": named(&k), "bounds": bounds(r, true)}),
        0 => json!({"type": "NullType"}),
        1 => json!({"type": "IntType", "bounds": bounds(r, false)}),
        2 => json!({"type": "OptionalType", "type_info": {"type": "IntType", "bounds": bounds(r, false)}}),
        3 => json!({"type": "OptionalType", "type_info": {"type": "BoolType"}}),
        4 => json!({"type": "OptionalType", "type_info": {"type": "ArrayType", "element_type": named(&k), "bounds": bounds(r, true)}}),
        5 => json!({"type": "OptionalType", "type_info": named(&k)}),
        6 => named(&k),
        _ => common_ti(r),
    }
}
fn strukt(r: &mut Rng, full: &str, event: Option<(&str, &str)>, ti: &mut dyn FnMut(&mut Rng) -> Value) -> Value {
    let mut taken = vec![];
    let mut f = vec![];
    if let Some((e, v)) = event {
        f.push(json!({"type": "ConstDecl", "name": "EVENT_ID", "type_info": named(e), "value": {"type": "IdentifierExpr", "fullname": format!("{e}.{v}")}}));
    }
    let n = r.idx(6);
    let mut tag = 0;
    for _ in 0..n {
        tag += r.below(3) + (tag > 0) as u64;
        f.push(json!({"type": "MemberStructField", "name": member(r, &mut taken), "type_info": ti(r), "tag": {"type": "IntLiteral", "value": tag.to_string()}}));
        tag += 1;
    }
    json!({"type": "TypeDecl", "fullname": full, "type_info": {"type": "StructType", "fields": f}})
}
fn enumm(r: &mut Rng, full: &str, names: &[String]) -> Value {
    let mut v = 0;
    let f: Vec<Value> = names
        .iter()
        .map(|n| {
            let x = v;
            v += 1 + if r.chance(1, 5) { r.below(9) } else { 0 };
            json!({"name": n, "value": {"type": "IntLiteral", "value": x.to_string()}})
        })
        .collect();
    json!({"type": "TypeDecl", "fullname": full, "type_info": {"type": "EnumType", "fields": f}})
}
fn enum_names(r: &mut Rng, n: usize) -> Vec<String> {
    let mut o: Vec<String> = vec![];
    while o.len() < n {
        let x = format!("e_{}", member(r, &mut vec![]).trim_start_matches("m_"));
        if !o.contains(&x) {
            o.push(x);
        }
    }
    o
}
fn choice(r: &mut Rng, full: &str, tis: Vec<Value>) -> Value {
    let mut taken = vec![];
    let f: Vec<Value> = tis
        .into_iter()
        .enumerate()
        .map(|(k, t)| json!({"name": camel_free(r, &mut taken), "type_info": t, "tag": {"type": "IntLiteral", "value": k.to_string()}}))
        .collect();
    json!({"type": "TypeDecl", "fullname": full, "type_info": {"type": "ChoiceType", "fields": f}})
}
fn camel_free(r: &mut Rng, taken: &mut Vec<String>) -> String {
    loop {
        let c = camel(r);
        if !taken.contains(&c) {
            taken.push(c.clone());
            return c;
        }
    }
}
fn int(r: &mut Rng, full: &str) -> Value {
    let mut b = bounds(r, false);
    if r.chance(1, 2) {
        let k = 1 + r.below(40);
        b["max"]["value"] = json!({"type": "PowExpr", "rhs": {"value": k.to_string()}});
        b["max"]["evalue"] = json!((1u64 << k).to_string());
    }
    json!({"type": "TypeDecl", "fullname": full, "type_info": {"type": "IntType", "bounds": b}})
}
/// what a choice of the bit packed side can hold
fn variant_ti(r: &mut Rng, known: &[String]) -> Value {
    match r.below(6) {
        0 => json!({"type": "NullType"}),
        1 => json!({"type": "BoolType"}),
        2 => json!({"type": "OptionalType", "type_info": named(r.pick(known))}),
        _ => named(r.pick(known)),
    }
}
/// the other declarations beside the modules that a decoder module takes over
fn beside(r: &mut Rng, known: &[String]) -> Vec<Value> {
    let mut o = vec![];
    let decl = |n: &str, t: Value| json!({"type": "TypeDecl", "fullname": n, "type_info": t});
    for n in ["NNet.ELeaveReason", "NNet.EReconnectStatus"] {
        if r.chance(1, 5) {
            let k = 1 + r.idx(6);
            let v = enum_names(r, k);
            o.push(enumm(r, n, &v));
        }
    }
    for n in ["NNet.CToonHandle", "NNet.CClanTag", "NNet.CFilePath"] {
        if r.chance(1, 5) {
            o.push(decl(n, json!({"type": "StringType", "bounds": bounds(r, true)})));
        }
    }
    for n in ["NNet.TUserCount", "NNet.TRaceCount", "NNet.TRaceId", "NNet.uint64", "NNet.uint14", "NNet.int64"] {
        if r.chance(1, 5) {
            o.push(int(r, n));
        }
    }
    for n in ["NNet.CCommanderHandle", "NNet.CMountHandle", "NNet.CSkinHandle", "NNet.CHeroHandle", "NNet.CArtifactHandle", "NNet.TNotWanted"] {
        if r.chance(1, 5) {
            o.push(decl(n, named(r.pick(known))));
        }
    }
    for n in ["NNet.TRacePreference", "NNet.TTeamPreference", "NNet.SUserInitialData", "NNet.SNeither"] {
        if r.chance(1, 5) {
            o.push(strukt(r, n, None, &mut |r| bit_ti(r, known)));
        }
    }
    if r.chance(1, 5) {
        o.push(decl("NNet.CUserInitialDataArray", json!({"type": "ArrayType", "element_type": named(r.pick(known)), "bounds": bounds(r, true)})));
    }
    for n in ["NNet.CAllowedObserveTypes", "NNet.CAllowedNothing"] {
        if r.chance(1, 5) {
            let mut b = bounds(r, true);
            b["min"]["evalue"] = json!("0");
            o.push(decl(n, json!({"type": "BitArrayType", "bounds": b})));
        }
    }
    if r.chance(1, 5) {
        o.push(strukt(r, "NNet.SMD5", None, &mut |r| common_ti(r)));
    }
    o
}
/// A description with all kinds of declarations.
pub fn generate(r: &mut Rng) -> Value {
    let mut top = vec![];
    let mut common = |r: &mut Rng| common_ti(r);
    for n in ["NNet.uint8", "NNet.int32", "NNet.uint6"] {
        if r.chance(2, 3) {
            top.push(int(r, n));
        }
    }
    if r.chance(2, 3) {
        top.push(strukt(r, "NNet.SVersion", None, &mut common));
    }
    if r.chance(1, 2) {
        let v = enum_names(r, 4);
        top.push(enumm(r, "NNet.EObserve", &v));
    }
    if r.chance(1, 2) {
        let t = (0..1 + r.idx(4)).map(|_| named(r.pick(&BYTE_NAMED).0)).collect();
        top.push(choice(r, "NNet.SVarUint32", t));
    }
    if r.chance(1, 3) {
        top.push(json!({"type": "TypeDecl", "fullname": "NNet.CUserName", "type_info": {"type": "StringType", "bounds": bounds(r, true)}}));
    }
    if r.chance(1, 3) {
        top.push(json!({"type": "TypeDecl", "fullname": "NNet.TUserId", "type_info": named("NNet.uint8")}));
    }
    if r.chance(1, 3) {
        let mut b = bounds(r, true);
        b["min"]["evalue"] = json!("0");
        top.push(json!({"type": "TypeDecl", "fullname": "NNet.CAllowedRaces", "type_info": {"type": "BitArrayType", "bounds": b}}));
    }
    if r.chance(1, 2) {
        top.push(strukt(r, "NNet.SNotWanted", None, &mut common));
    }
    let known: Vec<String> = ["NNet.uint8", "NNet.int32", "NNet.TUserId", "NNet.Game.SPoint", "NNet.SVersion", "NNet.Game.TTeamId"].map(String::from).to_vec();
    top.extend(beside(r, &known));
    if r.chance(4, 5) {
        let mut d = vec![];
        if r.chance(2, 3) {
            d.push(strukt(r, "NNet.Replay.SHeader", None, &mut byte_ti));
        }
        if r.chance(2, 3) {
            d.push(strukt(r, "NNet.Replay.SGameUserId", None, &mut |r| bit_ti(r, &known)));
        }
        for n in ["NNet.Replay.SInitData", "NNet.Replay.SOther"] {
            if r.chance(1, 3) {
                d.push(strukt(r, n, None, &mut |r| bit_ti(r, &known)));
            }
        }
        if r.chance(2, 3) {
            let (decls, names) = events(r, "NNet.Replay.Tracker", &mut byte_ti);
            let mut decls = decls;
            decls.push(enumm(r, "NNet.Replay.Tracker.EEventId", &names));
            d.push(json!({"type": "ModuleDecl", "fullname": "NNet.Replay.Tracker", "decls": decls}));
        }
        top.push(json!({"type": "ModuleDecl", "fullname": "NNet.Replay", "decls": d}));
    }
    if r.chance(4, 5) {
        let (mut d, names) = events(r, "NNet.Game", &mut |r| bit_ti(r, &known));
        d.push(enumm(r, "NNet.Game.EEventId", &names));
        for n in ["SThumbnail", "SColor", "SToonNameDetails", "SPlayerDetails", "SDetails"] {
            if r.chance(1, 3) {
                d.push(strukt(r, &format!("NNet.Game.{n}"), None, &mut |r| if r.chance(1, 8) { named(*r.pick(&LISTS)) } else { common_ti(r) }));
            }
        }
        if r.chance(1, 3) {
            let v = enum_names(r, 4);
            d.push(enumm(r, "NNet.Game.EResultDetails", &v));
        }
        if r.chance(1, 4) {
            // a structure that holds a choice of its own
            let mut e = strukt(r, "NNet.Game.STriggerDialogControlEvent", None, &mut |r| bit_ti(r, &known));
            let t: Vec<Value> = (0..1 + r.idx(6)).map(|_| variant_ti(r, &known)).collect();
            let c = choice(r, "", t);
            let f = e["type_info"]["fields"].as_array_mut().unwrap();
            let at = r.idx(f.len() + 1);
            f.insert(at, json!({"type": "MemberStructField", "name": "m_eventData", "type_info": c["type_info"], "tag": {"type": "IntLiteral", "value": "90"}}));
            d.push(e);
        }
        if r.chance(1, 2) {
            let v = enum_names(r, 3);
            d.push(enumm(r, "NNet.Game.EGameSpeed", &v));
        }
        if r.chance(1, 2) {
            let t = (0..1 + r.idx(6)).map(|_| variant_ti(r, &known)).collect();
            d.push(choice(r, "NNet.Game.SCmdData", t));
        }
        if r.chance(1, 2) {
            d.push(json!({"type": "TypeDecl", "fullname": "NNet.Game.CList", "type_info": {"type": "ArrayType", "element_type": named(r.pick(&known)), "bounds": bounds(r, true)}}));
        }
        if r.chance(1, 2) {
            d.push(json!({"type": "ConstDecl", "fullname": "NNet.Game.MAX_PLAYERS", "type_info": {"type": "IntType"}}));
        }
        if r.chance(1, 3) {
            d.push(json!({"type": "TypeDecl", "fullname": "NNet.Game.ESenders", "type_info": {"type": "EnumType", "fields": []}}));
        }
        for _ in 0..r.idx(3) {
            let at = r.idx(d.len());
            let x = d.remove(at);
            d.push(x);
        }
        top.push(json!({"type": "ModuleDecl", "fullname": "NNet.Game", "decls": d}));
    }
    if r.chance(1, 3) {
        r.shuffle(&mut top);
    }
    json!({"modules": [{"decls": top}]})
}
fn events(r: &mut Rng, module: &str, ti: &mut dyn FnMut(&mut Rng) -> Value) -> (Vec<Value>, Vec<String>) {
    let n = 1 + r.idx(5);
    let mut names = enum_names(r, n);
    let mut o: Vec<Value> = vec![];
    let mut taken = vec![];
    let id = format!("{module}.EEventId");
    for k in &names {
        let full = format!("{module}.S{}Event", camel_free(r, &mut taken));
        if r.chance(5, 6) {
            o.push(strukt(r, &full, Some((&id, k)), ti));
        }
    }
    // one structure for two events
    if r.chance(1, 4) && !o.is_empty() {
        let k = r.pick(&names).clone();
        let at = r.idx(o.len());
        let f = o[at]["type_info"]["fields"].as_array_mut().unwrap();
        f.insert(1, json!({"type": "ConstDecl", "name": "EVENT_ID2", "type_info": named(&id), "value": {"type": "IdentifierExpr", "fullname": format!("{id}.{k}")}}));
    }
    // two structures for one event: the first counts
    if r.chance(1, 6) {
        let full = format!("{module}.S{}Event", camel_free(r, &mut taken));
        let k = names[0].clone();
        o.push(strukt(r, &full, Some((&id, &k)), ti));
    }
    names.rotate_left(1);
    (o, names)
}

// ------------------------------------------------------------------ what must come out
#[derive(Debug, Clone, PartialEq)]
pub struct Item {
    pub module: &'static str,
    pub kind: &'static str,
    pub name: String,
    /// `name: type`, `Variant(Type)` or `Variant`, in order
    pub members: Vec<String>,
    /// what the decoder has to contain, in order
    pub tokens: Vec<String>,
}
pub fn rust_name(full: &str) -> String {
    let s: Vec<char> = full.replace('.', "").replace("NNet", "").chars().collect();
    let mut o = String::new();
    for (k, &c) in s.iter().enumerate() {
        if c == '_' {
            continue;
        }
        let up = |k: usize| s.get(k).is_some_and(|c| c.is_uppercase());
        // a capital inside a run of capitals is no start of a word
        let run = k > 0 && up(k - 1) && !s.get(k + 1).is_some_and(|c| c.is_lowercase());
        if k == 0 || s[k - 1] == '_' || c.is_uppercase() && !run { o.extend(c.to_uppercase()) } else { o.extend(c.to_lowercase()) }
    }
    o
}
fn snake(n: &str) -> String {
    let mut o = String::new();
    for c in n.chars() {
        if c.is_uppercase() {
            o.push('_');
        }
        o.extend(c.to_lowercase());
    }
    o
}
fn full_or_type(t: &Value) -> &str {
    t["fullname"].as_str().or(t["type"].as_str()).unwrap_or("")
}
fn num(v: &Value) -> i64 {
    v.as_str().and_then(|s| s.parse().ok()).unwrap_or(0)
}
fn bit_len(n: i64) -> u32 {
    64 - n.leading_zeros()
}
/// bits for the numbers of a range
fn range_bits(b: &Value) -> u32 {
    bit_len(num(&b["max"]["evalue"]) - !b["min"]["inclusive"].as_bool().unwrap() as i64 - !b["max"]["inclusive"].as_bool().unwrap() as i64)
}
fn simple(t: &str, byte: bool) -> String {
    if !byte && t.starts_with("NNet") {
        return rust_name(t);
    }
    if let Some((_, r)) = BYTE_NAMED.iter().find(|x| x.0 == t) {
        return (*r).into();
    }
    match (t, byte) {
        ("BoolType", _) => "bool",
        ("FourCCType", true) => "u32",
        ("FourCCType", false) | ("BlobType" | "StringType", _) => "Vec<u8>",
        ("NullType", _) => "()",
        ("IntType", false) => "i64",
        ("NNet.Game.CModPaths" | "NNet.Game.CCacheHandles", true) => "Vec<Vec<u8>>",
        ("NNet.Game.CPlayerDetailsArray", true) => "Vec<GameSPlayerDetails>",
        _ => "?",
    }
    .into()
}
fn parser(t: &str, byte: bool) -> String {
    if !byte && t.starts_with("NNet") {
        return format!("{}::parse", rust_name(t));
    }
    match (simple(t, byte).as_str(), byte) {
        ("u8" | "u32" | "i32" | "i64" | "u64", true) if t != "FourCCType" => "tagged_vlq_int",
        ("u32", true) => "tagged_fourcc",
        ("bool", true) => "tagged_bool",
        ("Vec<u8>" | "Vec<Vec<u8>>", true) => "tagged_blob",
        ("Vec<GameSPlayerDetails>", true) => "GameSPlayerDetails::parse",
        (n, true) => return format!("{n}::parse"),
        ("bool", false) => "parse_bool",
        ("Vec<u8>", false) => "take_fourcc",
        ("()", false) => "take_null",
        (_, false) => "parse_packed_int(",
    }
    .into()
}
fn field_type(t: &Value, byte: bool) -> String {
    match t["type"].as_str().unwrap_or("") {
        "OptionalType" => format!("Option<{}>", field_type(&t["type_info"], byte)),
        "ArrayType" | "DynArrayType" => format!("Vec<{}>", simple(full_or_type(&t["element_type"]), byte)),
        "ChoiceType" => "MEventData".into(),
        _ => simple(full_or_type(t), byte),
    }
}
fn item(d: &Value, byte: bool, tags: &BTreeMap<String, String>) -> Option<Item> {
    if d["type"] == "ConstDecl" {
        return None;
    }
    let name = rust_name(d["fullname"].as_str()?);
    let t = &d["type_info"];
    let mut members = vec![];
    let mut tokens = vec![];
    let empty = vec![];
    let fields = t["fields"].as_array().unwrap_or(&empty);
    let mut kind = "struct";
    match t["type"].as_str()? {
        "StructType" => {
            let single = fields.len() == 1 && fields[0]["tag"].is_null();
            for f in fields.iter().filter(|f| f["type"] != "ConstDecl") {
                let n = snake(f["name"].as_str()?);
                let ty = field_type(&f["type_info"], byte);
                members.push(format!("{n}: {ty}"));
                tokens.push(format!("pub fn parse_{n}("));
                let mut x = &f["type_info"];
                if x["type"] == "OptionalType" {
                    tokens.push(if byte { "validate_opt_tag(input)?" } else { "parse_bool(input)?" }.into());
                    x = &x["type_info"];
                }
                let list = x["fullname"].as_str().is_some_and(|t| LISTS.contains(&t));
                if x["type"] == "ChoiceType" {
                    tokens.push("MEventData::parse(input)?".into());
                    continue;
                }
                if x["type"] == "ArrayType" || x["type"] == "DynArrayType" || byte && list {
                    tokens.push(match byte {
                        true => "validate_array_tag(".into(),
                        false => format!(", {})?;", bit_len(num(&x["bounds"]["max"]["evalue"]))),
                    });
                    if !list {
                        x = &x["element_type"];
                    }
                }
                tokens.push(parser(full_or_type(x), byte));
                if let ("IntType", false) = (full_or_type(x), byte) {
                    tokens.push(format!(", {}, {}usize)", num(&x["bounds"]["min"]["evalue"]), range_bits(&x["bounds"])));
                }
            }
            for f in fields.iter().filter(|f| f["type"] != "ConstDecl") {
                let n = snake(f["name"].as_str()?);
                if byte && !single {
                    tokens.push(format!(" {} => {{", f["tag"]["value"].as_str()?));
                }
                tokens.push(format!("Self::parse_{n}(tail)?;"));
            }
        }
        "EnumType" => {
            kind = "enum";
            if !byte {
                let n = fields.len() as u64;
                tokens.push(format!("let num_bits: usize = {};", if n <= 1 { 0 } else { bit_len(n as i64 - 1) }));
            }
            for f in fields {
                let v = rust_name(f["name"].as_str()?);
                tokens.push(format!(" {} => {{", f["value"]["value"].as_str()?));
                match tags.get(&format!("{}.{}", d["fullname"].as_str()?, f["name"].as_str()?)) {
                    Some(s) => {
                        tokens.push(format!("{s}::parse(tail)?"));
                        tokens.push(format!("Self::{v}(res)"));
                        members.push(format!("{v}({s})"));
                    }
                    None => {
                        tokens.push(format!("Self::{v}))"));
                        members.push(v);
                    }
                }
            }
        }
        "ChoiceType" => {
            kind = "enum";
            if !byte {
                let n = fields.len() as i64;
                tokens.push(format!("let num_bits: usize = {};", if n <= 1 { 0 } else { bit_len(n - 1) }));
            }
            for f in fields {
                if byte && f["type_info"]["type"] == "NullType" {
                    continue;
                }
                let v = rust_name(f["name"].as_str()?);
                tokens.push(format!(" {} => {{", f["tag"]["value"].as_str()?));
                let mut x = &f["type_info"];
                if x["type"] == "OptionalType" {
                    tokens.push("parse_bool(tail)?".into());
                    x = &x["type_info"];
                }
                tokens.push(format!("{}(tail)?", parser(full_or_type(x), byte)));
                tokens.push(format!("Self::{v}("));
                members.push(format!("{v}({})", field_type(&f["type_info"], byte)));
            }
        }
        "IntType" => {
            members.push("value: i64".into());
            if !byte {
                let b = &t["bounds"];
                let min = num(&b["min"]["evalue"]);
                let bits = match b["max"]["value"]["rhs"]["value"].as_str() {
                    Some(n) => n.parse::<u32>().ok()?,
                    None => range_bits(b),
                } + (min < 0) as u32;
                tokens.push(format!("let offset: i64 = {min};"));
                tokens.push(format!("let num_bits: usize = {bits};"));
            }
        }
        "BitArrayType" => {
            tokens.push(format!("let bitarray_length_bits: usize = {};", range_bits(&t["bounds"])));
            members.push("value: Vec<u8>".into())
        }
        "StringType" => {
            // the length counts bytes, two bits more than the bound has
            let b = &t["bounds"];
            tokens.push(format!("let str_size_num_bits: usize = {};", bit_len(num(&b["max"]["evalue"]) + b["max"]["inclusive"].as_bool()? as i64) + 2));
            members.push("value: Vec<u8>".into())
        }
        "UserType" => {
            let n = rust_name(t["fullname"].as_str()?);
            tokens.push(format!("{n}::parse(input)?"));
            members.push(format!("value: {n}"));
        }
        "ArrayType" => {
            let n = rust_name(t["element_type"]["fullname"].as_str()?);
            let b = &t["bounds"];
            let max = num(&b["max"]["evalue"]) + b["max"]["inclusive"].as_bool()? as i64;
            if !byte {
                tokens.push(format!("let array_length_num_bits: usize = {};", bit_len(max)));
            }
            members.push(format!("value: Vec<{n}>"));
        }
        _ => return None,
    }
    Some(Item { module: if byte { "byte_aligned" } else { "bit_packed" }, kind, name, members, tokens })
}
/// The items of the generated module, in order.
pub fn want(p: &Value) -> Vec<Item> {
    let empty = vec![];
    let top = p["modules"][0]["decls"].as_array().unwrap_or(&empty);
    let mut tags = BTreeMap::new();
    let mut collect = |d: &Value| {
        for f in d["type_info"]["fields"].as_array().unwrap_or(&vec![]) {
            if d["type_info"]["type"] == "StructType" && f["type"] == "ConstDecl" {
                tags.entry(f["value"]["fullname"].as_str().unwrap_or("").to_string()).or_insert(rust_name(d["fullname"].as_str().unwrap_or("")));
            }
        }
    };
    for d in top.iter().filter(|d| d["fullname"] == "NNet.Replay" || d["fullname"] == "NNet.Game") {
        for s in d["decls"].as_array().unwrap_or(&empty) {
            match s["decls"].as_array() {
                Some(l) => l.iter().for_each(&mut collect),
                None => collect(s),
            }
        }
    }
    let mut o = vec![];
    let both = ["NNet.SVersion", "NNet.SVarUint32", "NNet.SMD5", "NNet.EObserve"];
    for byte in [true, false] {
        for d in top {
            let n = d["fullname"].as_str().unwrap_or("");
            let subs = d["decls"].as_array().unwrap_or(&empty);
            if both.contains(&n) || !byte && (n.starts_with("NNet.uint") || n.starts_with("NNet.int") || BESIDE.contains(&n)) {
                o.extend(item(d, byte, &tags));
            }
            for s in subs {
                let m = s["fullname"].as_str().unwrap_or("");
                match (n, byte) {
                    ("NNet.Replay", true) if m == "NNet.Replay.SHeader" => o.extend(item(s, byte, &tags)),
                    ("NNet.Replay", true) if m == "NNet.Replay.Tracker" => {
                        o.extend(s["decls"].as_array().unwrap_or(&empty).iter().filter_map(|x| item(x, byte, &tags)))
                    }
                    ("NNet.Replay", false) if m == "NNet.Replay.SGameUserId" || m == "NNet.Replay.SInitData" => o.extend(item(s, byte, &tags)),
                    ("NNet.Game", true)
                        if ["SThumbnail", "SColor", "SToonNameDetails", "SPlayerDetails", "EGameSpeed", "SDetails", "EResultDetails"].contains(&m.trim_start_matches("NNet.Game.")) =>
                    {
                        o.extend(item(s, byte, &tags))
                    }
                    ("NNet.Game", false) if m != "NNet.Game.ESenders" => {
                        o.extend(item(s, byte, &tags));
                        if m == "NNet.Game.STriggerDialogControlEvent" {
                            let f = s["type_info"]["fields"].as_array().unwrap_or(&empty);
                            if let Some(c) = f.iter().find(|f| f["name"] == "m_eventData") {
                                o.extend(item(&json!({"type": "TypeDecl", "fullname": "m_eventData", "type_info": c["type_info"]}), byte, &tags));
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
    }
    o
}
fn flat(s: &str) -> String {
    s.split_whitespace().collect::<Vec<_>>().join(" ")
}
/// First difference between what a description asks for and a generated module.
pub fn check(p: &Value, text: &str) -> Option<String> {
    let Some((a, b)) = text.split_once("pub mod bit_packed {") else { return Some("there is no bit packed module".into()) };
    let Some((_, a)) = a.split_once("pub mod byte_aligned {") else { return Some("there is no byte aligned module".into()) };
    let mut got: Vec<(&str, String)> = vec![];
    for (m, t) in [("byte_aligned", a), ("bit_packed", b)] {
        for s in t.split("#[derive(").skip(1) {
            got.push((m, flat(s.split_once("]").map(|x| x.1).unwrap_or(s))));
        }
    }
    let want = want(p);
    for (k, w) in want.iter().enumerate() {
        let Some((m, g)) = got.get(k) else { return Some(format!("{}::{} is missing", w.module, w.name)) };
        let head = format!("pub {} {} {{", w.kind, w.name);
        if *m != w.module || !g.starts_with(&head) {
            return Some(format!("{m}: {}... instead of {}::{}", g.chars().take(50).collect::<String>(), w.module, w.name));
        }
        let Some((def, code)) = g[head.len()..].split_once('}') else { return Some(format!("{} is not closed", w.name)) };
        let mut mem: Vec<String> = vec![];
        for x in def.split(',').map(flat).filter(|x| !x.is_empty()) {
            mem.push(x.trim_start_matches("pub ").into());
        }
        if mem != w.members {
            return Some(format!("{}::{}: {mem:?} instead of {:?}", w.module, w.name, w.members));
        }
        let mut rest = code;
        for t in &w.tokens {
            // separate from what is before, in order
            match rest.find(t.as_str()) {
                Some(at) => rest = &rest[at..],
                None => return Some(format!("{}::{}: the decoder has no {t:?} (in this place)", w.module, w.name)),
            }
        }
    }
    got.get(want.len()).map(|g| format!("{}: {}... is not described", g.0, g.1.chars().take(50).collect::<String>()))
}
