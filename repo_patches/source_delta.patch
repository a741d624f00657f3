From 3671c0e254134c0cc82c358633090eaeb351aa0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:33 +0000
Subject: [PATCH 01/36] fix: report a damaged MPQ archive as an error instead
 of panicking

The MPQ parser indexes with the offsets stored in the archive.
---
 src/details.rs                                |  2 +-
 src/dir_stats.rs                              |  3 +--
 src/init_data/mod.rs                          |  2 +-
 src/lib.rs                                    | 26 ++++++++++++++++++-
 src/state/mod.rs                              |  8 +++---
 src/versions/protocol75689/mod.rs             |  3 +--
 src/versions/protocol87702/events/details.rs  |  3 +--
 src/versions/protocol87702/events/game/mod.rs |  3 +--
 .../protocol87702/events/init_data.rs         |  3 +--
 .../protocol87702/events/message/mod.rs       |  3 +--
 .../protocol87702/events/tracker/mod.rs       |  3 +--
 11 files changed, 37 insertions(+), 22 deletions(-)

diff --git a/src/details.rs b/src/details.rs
index 595e68f..b975a39 100644
--- a/src/details.rs
+++ b/src/details.rs
@@ -308,7 +308,7 @@ impl TryFrom<&InitData> for Details {
     fn try_from(init: &InitData) -> Result<Self, Self::Error> {
         let path = PathBuf::from(init.ext_fs_file_name.clone());
         let file_contents = crate::read_file(&path)?;
-        let (_input, mpq) = crate::parser::parse(&file_contents)?;
+        let mpq = crate::parse_mpq(&file_contents)?;
         Self::new(
             path.to_str().unwrap_or_default(),
             init.ext_fs_id,
diff --git a/src/dir_stats.rs b/src/dir_stats.rs
index 5b67468..70a287b 100644
--- a/src/dir_stats.rs
+++ b/src/dir_stats.rs
@@ -4,7 +4,6 @@ use crate::game_events::VersionedBalanceUnit;
 use crate::game_events::ability::balance_data::json_handler::read_balance_data_from_included_assets;
 
 use crate::get_matching_files;
-use nom_mpq::parser;
 use rayon::prelude::*;
 use serde::{Deserialize, Serialize};
 use std::collections::HashMap;
@@ -104,7 +103,7 @@ pub fn try_read_init_data(
     file_number: u64,
 ) -> Result<InitData, Box<dyn std::error::Error>> {
     let file_contents = crate::read_file(source)?;
-    let (_, mpq) = parser::parse(&file_contents)?;
+    let mpq = parse_mpq(&file_contents)?;
     let source_path: String = source
         .to_str()
         .expect("Failed to convert file name to str")
diff --git a/src/init_data/mod.rs b/src/init_data/mod.rs
index 8e915ec..7e93a81 100644
--- a/src/init_data/mod.rs
+++ b/src/init_data/mod.rs
@@ -74,7 +74,7 @@ impl TryFrom<(PathBuf, u64)> for InitData {
     fn try_from(replay: (PathBuf, u64)) -> Result<Self, Self::Error> {
         let (path, ext_fs_id) = replay;
         let file_contents = crate::read_file(&path)?;
-        let (_input, mpq) = crate::parser::parse(&file_contents)?;
+        let mpq = crate::parse_mpq(&file_contents)?;
         Self::new(
             path.to_str().unwrap_or_default(),
             ext_fs_id,
diff --git a/src/lib.rs b/src/lib.rs
index 88d3368..b2b8011 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -85,10 +85,34 @@ pub const MAX_INITIAL_CAPACITY_BYTES: usize = 65536;
 pub fn read_mpq(path: &str) -> Result<(MPQ, Vec<u8>), S2ProtocolError> {
     tracing::info!("Processing MPQ file {}", path);
     let file_contents = parser::read_file(path);
-    let (_, mpq) = parser::parse(&file_contents)?;
+    let mpq = parse_mpq(&file_contents)?;
     Ok((mpq, file_contents))
 }
 
+/// Runs an operation of the MPQ parser.
+/// The offsets and sizes stored in an archive are used as they are by the MPQ parser, so an archive
+/// that is damaged may panic there, this is reported as an error instead.
+fn guard_mpq_parser<T>(
+    operation: impl FnOnce() -> Result<T, S2ProtocolError> + std::panic::UnwindSafe,
+) -> Result<T, S2ProtocolError> {
+    std::panic::catch_unwind(operation)
+        .unwrap_or(Err(nom_mpq::MPQParserError::IncompleteData.into()))
+}
+
+/// Parses the contents of an MPQ archive.
+pub fn parse_mpq(file_contents: &[u8]) -> Result<MPQ, S2ProtocolError> {
+    guard_mpq_parser(|| Ok(parser::parse(file_contents)?.1))
+}
+
+/// Reads a file embedded in the MPQ archive.
+pub fn read_mpq_sector(
+    mpq: &MPQ,
+    filename: &str,
+    file_contents: &[u8],
+) -> Result<Vec<u8>, S2ProtocolError> {
+    guard_mpq_parser(|| Ok(mpq.read_mpq_file_sector(filename, false, file_contents)?.1))
+}
+
 /// Creates a colored binary representation of the input.
 /// The pre-amble bits are set to blue (these are bits previously processed)
 /// The current position, is set to green color.
diff --git a/src/state/mod.rs b/src/state/mod.rs
index 122680e..d9c5d3a 100644
--- a/src/state/mod.rs
+++ b/src/state/mod.rs
@@ -337,11 +337,9 @@ impl SC2EventIterator {
         let source = PathBuf::from(init_data.ext_fs_file_name.clone());
         let total_initial_abilities = multi_version_abilities.len();
         let file_contents = crate::read_file(&source)?;
-        let (_input, mpq) = crate::parser::parse(&file_contents)?;
-        let (_event_tail, tracker_events) =
-            mpq.read_mpq_file_sector("replay.tracker.events", false, &file_contents)?;
-        let (_event_tail, game_events) =
-            mpq.read_mpq_file_sector("replay.game.events", false, &file_contents)?;
+        let mpq = crate::parse_mpq(&file_contents)?;
+        let tracker_events = crate::read_mpq_sector(&mpq, "replay.tracker.events", &file_contents)?;
+        let game_events = crate::read_mpq_sector(&mpq, "replay.game.events", &file_contents)?;
         let balance_units: HashMap<String, VersionedBalanceUnit> = multi_version_abilities
             .into_iter()
             .filter_map(|((version, name), unit)| {
diff --git a/src/versions/protocol75689/mod.rs b/src/versions/protocol75689/mod.rs
index 3462b46..7b50b0d 100644
--- a/src/versions/protocol75689/mod.rs
+++ b/src/versions/protocol75689/mod.rs
@@ -1221,8 +1221,7 @@ pub mod bit_packed {
             mpq: &MPQ,
             file_contents: &[u8],
         ) -> Result<Vec<GameEvent>, S2ProtocolError> {
-            let (_event_tail, game_events) =
-                mpq.read_mpq_file_sector("replay.game.events", false, file_contents)?;
+            let game_events = crate::read_mpq_sector(mpq, "replay.game.events", file_contents)?;
             let mut res = vec![];
             let mut count = 1usize;
             let mut event_tail: (&[u8], usize) = (&game_events, 0usize);
diff --git a/src/versions/protocol87702/events/details.rs b/src/versions/protocol87702/events/details.rs
index afe1cb3..7303623 100644
--- a/src/versions/protocol87702/events/details.rs
+++ b/src/versions/protocol87702/events/details.rs
@@ -10,8 +10,7 @@ use nom_mpq::MPQ;
 impl GameSDetails {
     /// Read the Details MPQ sector.
     pub fn read_details(mpq: &MPQ, file_contents: &[u8]) -> Result<Details, S2ProtocolError> {
-        let (_, details_sector) =
-            mpq.read_mpq_file_sector("replay.details", false, file_contents)?;
+        let details_sector = crate::read_mpq_sector(mpq, "replay.details", file_contents)?;
         let (_, game_sdetails) = GameSDetails::parse(&details_sector)?;
         game_sdetails.try_into()
     }
diff --git a/src/versions/protocol87702/events/game/mod.rs b/src/versions/protocol87702/events/game/mod.rs
index 3365b67..b483ca7 100644
--- a/src/versions/protocol87702/events/game/mod.rs
+++ b/src/versions/protocol87702/events/game/mod.rs
@@ -37,8 +37,7 @@ impl GameEEventId {
 
     /// Read the Game Events
     pub fn read_events(mpq: &MPQ, file_contents: &[u8]) -> Result<Vec<GameEvent>, S2ProtocolError> {
-        let (_event_tail, game_events) =
-            mpq.read_mpq_file_sector("replay.game.events", false, file_contents)?;
+        let game_events = crate::read_mpq_sector(mpq, "replay.game.events", file_contents)?;
         let mut res = vec![];
         let mut count = 1usize;
         let mut event_tail: (&[u8], usize) = (&game_events, 0usize);
diff --git a/src/versions/protocol87702/events/init_data.rs b/src/versions/protocol87702/events/init_data.rs
index 9170e9e..bba08e6 100644
--- a/src/versions/protocol87702/events/init_data.rs
+++ b/src/versions/protocol87702/events/init_data.rs
@@ -9,8 +9,7 @@ impl ReplaySInitData {
     /// Read the Init Data
     #[tracing::instrument(level = "debug", skip(mpq, file_contents))]
     pub fn read_init_data(mpq: &MPQ, file_contents: &[u8]) -> Result<InitData, S2ProtocolError> {
-        let (_, init_data_sector) =
-            mpq.read_mpq_file_sector("replay.initData", false, file_contents)?;
+        let init_data_sector = crate::read_mpq_sector(mpq, "replay.initData", file_contents)?;
         let (_, replay_sinitdata) = ReplaySInitData::parse((&init_data_sector, 0usize))?;
         replay_sinitdata.try_into()
     }
diff --git a/src/versions/protocol87702/events/message/mod.rs b/src/versions/protocol87702/events/message/mod.rs
index 5f2ca75..b5ce351 100644
--- a/src/versions/protocol87702/events/message/mod.rs
+++ b/src/versions/protocol87702/events/message/mod.rs
@@ -31,8 +31,7 @@ impl GameEMessageId {
         file_contents: &[u8],
     ) -> Result<Vec<MessageEvent>, S2ProtocolError> {
         // TODO: Make it return an Iterator
-        let (_event_tail, game_events) =
-            mpq.read_mpq_file_sector("replay.message.events", false, file_contents)?;
+        let game_events = crate::read_mpq_sector(mpq, "replay.message.events", file_contents)?;
         let mut res = vec![];
         let mut count = 1usize;
         let mut event_tail: (&[u8], usize) = (&game_events, 0usize);
diff --git a/src/versions/protocol87702/events/tracker/mod.rs b/src/versions/protocol87702/events/tracker/mod.rs
index 28b61d1..ee97a2d 100644
--- a/src/versions/protocol87702/events/tracker/mod.rs
+++ b/src/versions/protocol87702/events/tracker/mod.rs
@@ -29,8 +29,7 @@ impl ReplayTrackerEEventId {
         file_contents: &[u8],
     ) -> Result<Vec<TrackerEvent>, S2ProtocolError> {
         // TODO: Make it return an Iterator.
-        let (_event_tail, tracker_events) =
-            mpq.read_mpq_file_sector("replay.tracker.events", false, file_contents)?;
+        let tracker_events = crate::read_mpq_sector(mpq, "replay.tracker.events", file_contents)?;
         let mut res = vec![];
         let mut event_tail: &[u8] = &tracker_events;
         loop {
-- 
2.43.0


From e0e8ae6cdbea55c5a580ff291472512d85efb677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:33 +0000
Subject: [PATCH 02/36] fix: read_mpq reports I/O errors instead of panicking

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index b2b8011..9933c32 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -84,7 +84,7 @@ pub const MAX_INITIAL_CAPACITY_BYTES: usize = 65536;
 /// Reads the MPQ file and returns both the MPQ read file and the reference to its contents.
 pub fn read_mpq(path: &str) -> Result<(MPQ, Vec<u8>), S2ProtocolError> {
     tracing::info!("Processing MPQ file {}", path);
-    let file_contents = parser::read_file(path);
+    let file_contents = read_file(&PathBuf::from(path))?;
     let mpq = parse_mpq(&file_contents)?;
     Ok((mpq, file_contents))
 }
-- 
2.43.0


From e0c47044f03628517d6c66f9ca16f118f100682a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:33 +0000
Subject: [PATCH 03/36] fix: a replay without a usable header is an error, not
 a panic

---
 src/error.rs                    |  5 ++---
 src/protocol_version_decoder.rs |  2 +-
 src/versions/mod.rs             | 22 ++++++++++++++++------
 3 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 52803a9..937eee3 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -62,9 +62,8 @@ where
 {
     fn from(err: nom::Err<nom::error::Error<I>>) -> Self {
         match err {
-            nom::Err::Incomplete(_) => {
-                unreachable!("This library is compatible with only complete parsers, not streaming")
-            }
+            // The MPQ parser reports an invalid archive header offset as incomplete data.
+            nom::Err::Incomplete(e) => S2ProtocolError::ByteAligned(format!("{e:?}")),
             nom::Err::Error(e) => S2ProtocolError::ByteAligned(format!("{e:?}")),
             nom::Err::Failure(e) => S2ProtocolError::ByteAligned(format!("{e:?}")),
         }
diff --git a/src/protocol_version_decoder.rs b/src/protocol_version_decoder.rs
index 468c96c..a0b19c8 100644
--- a/src/protocol_version_decoder.rs
+++ b/src/protocol_version_decoder.rs
@@ -53,6 +53,6 @@ pub fn read_protocol_header(mpq: &MPQ) -> S2ProtoResult<&[u8], ReplaySHeader> {
     let user_data = mpq
         .user_data
         .as_ref()
-        .expect("Unable to locate protocol version, missing user data in MPQ");
+        .ok_or_else(|| S2ProtocolError::MissingField("MPQ user data".to_string()))?;
     ReplaySHeader::parse(&user_data.content)
 }
diff --git a/src/versions/mod.rs b/src/versions/mod.rs
index f4a0c0c..9ad3b50 100644
--- a/src/versions/mod.rs
+++ b/src/versions/mod.rs
@@ -10,6 +10,16 @@ use nom_mpq::MPQ;
 pub mod protocol75689;
 pub mod protocol87702;
 
+/// Validates the signature in the protocol header
+fn validate_signature(signature: &[u8]) -> Result<(), S2ProtocolError> {
+    if signature != b"StarCraft II replay\x1b11" {
+        return Err(S2ProtocolError::ByteAligned(
+            "Unexpected replay signature".to_string(),
+        ));
+    }
+    Ok(())
+}
+
 /// Attempts to read the tracker events, panics under unknown protocol
 #[tracing::instrument(level = "debug", skip(mpq, file_contents, file_name))]
 pub fn read_tracker_events(
@@ -23,7 +33,7 @@ pub fn read_tracker_events(
         proto_header.m_version.m_base_build,
         file_name
     );
-    assert_eq!(proto_header.m_signature, b"StarCraft II replay\x1b11"[..]);
+    validate_signature(&proto_header.m_signature)?;
     match proto_header.m_version.m_base_build {
         0..=75689 => protocol75689::byte_aligned::ReplayTrackerEEventId::read_tracker_events(
             mpq,
@@ -54,7 +64,7 @@ pub fn read_game_events(
         proto_header.m_version.m_base_build,
         file_name
     );
-    assert_eq!(proto_header.m_signature, b"StarCraft II replay\x1b11"[..]);
+    validate_signature(&proto_header.m_signature)?;
     match proto_header.m_version.m_base_build {
         0..=75689 => protocol75689::bit_packed::GameEEventId::read_events(mpq, file_contents),
         83830 | 84643 | 88500 | 86383 | 87702 | 89634 | 89165 | 89720 | 90136 | 90779 | 90870
@@ -76,7 +86,7 @@ pub fn read_message_events(
         proto_header.m_version.m_base_build,
         file_name
     );
-    assert_eq!(proto_header.m_signature, b"StarCraft II replay\x1b11"[..]);
+    validate_signature(&proto_header.m_signature)?;
     match proto_header.m_version.m_base_build {
         0..=75689 => protocol75689::bit_packed::GameEMessageId::read_events(mpq, file_contents),
         83830 | 84643 | 88500 | 86383 | 87702 | 89634 | 89165 | 89720 | 90136 | 90779 | 90870
@@ -98,7 +108,7 @@ pub fn read_details(
         proto_header.m_version.m_base_build,
         file_name
     );
-    assert_eq!(proto_header.m_signature, b"StarCraft II replay\x1b11"[..]);
+    validate_signature(&proto_header.m_signature)?;
     match proto_header.m_version.m_base_build {
         0..=75689 => protocol75689::byte_aligned::GameSDetails::read_details(mpq, file_contents),
         83830 | 84643 | 88500 | 86383 | 87702 | 89634 | 89165 | 89720 | 90136 | 90779 | 90870
@@ -107,7 +117,7 @@ pub fn read_details(
     }
 }
 
-/// Attempts to read the initData, panics if signature doesn't match
+/// Attempts to read the initData
 #[tracing::instrument(level = "debug", skip(mpq, file_contents, file_name))]
 pub fn read_init_data(
     file_name: &str,
@@ -120,7 +130,7 @@ pub fn read_init_data(
         proto_header.m_version.m_base_build,
         file_name
     );
-    assert_eq!(proto_header.m_signature, b"StarCraft II replay\x1b11"[..]);
+    validate_signature(&proto_header.m_signature)?;
     let res = match proto_header.m_version.m_base_build {
         0..=75689 => protocol75689::bit_packed::ReplaySInitData::read_init_data(mpq, file_contents),
         83830 | 84643 | 88500 | 86383 | 87702 | 89634 | 89165 | 89720 | 90136 | 90779 | 90870
-- 
2.43.0


From 5cb7ab176032928cb62cd139ebf55ac709bb8107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:33 +0000
Subject: [PATCH 04/36] fix: a variable length integer over 64 bits is an
 error, not an overflow

---
 src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9933c32..d8ca2ec 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -181,12 +181,18 @@ pub fn parse_vlq_int(input: &[u8]) -> IResult<&[u8], i64> {
     while (v_int_value & 0x80) != 0 {
         let (new_tail, new_v_int_value) = dbg_peek_hex(u8, "v_int")(tail)?;
         tail = new_tail;
+        if bits >= i64::BITS as i64 {
+            return Err(nom::Err::Error(nom::error::Error::new(
+                input,
+                nom::error::ErrorKind::TooLarge,
+            )));
+        }
         result |= ((new_v_int_value as i64 & 0x7fi64) << bits) as i64;
         v_int_value = new_v_int_value;
         bits += 7;
     }
     if is_negative {
-        result = -result;
+        result = result.wrapping_neg();
     }
     Ok((tail, result))
 }
-- 
2.43.0


From 39c6daf42c23620f8ae41e6274753fdba2e7af0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:35 +0000
Subject: [PATCH 05/36] fix: find the target unit of a command by its tag index

Player events name units by the full tag, units are registered by the tag index.
---
 src/game_events/state.rs | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/game_events/state.rs b/src/game_events/state.rs
index ff10261..5a4aaa7 100644
--- a/src/game_events/state.rs
+++ b/src/game_events/state.rs
@@ -63,7 +63,10 @@ pub fn handle_cmd(
     // For now this is not implemented and a unit maybe have a target unit, even tho the active
     // command is Stop.
     let target = if let GameSCmdData::TargetUnit(tu) = &cmd.m_data {
-        sc2_state.units.get(&tu.m_tag).cloned()
+        sc2_state
+            .units
+            .get(&unit_tag_index(tu.m_tag.into()))
+            .cloned()
     } else {
         None
     };
@@ -160,25 +163,20 @@ pub fn handle_update_target_unit(
     target_unit: GameSCmdUpdateTargetUnitEvent,
 ) -> (ReplayGameEvent, UnitChangeHint) {
     // The TargetPoint does not contain the ability id or command index.
-    let registered_target_unit = match sc2_state.units.get(&target_unit.m_target.m_tag) {
+    let registered_target_unit = match sc2_state
+        .units
+        .get(&unit_tag_index(target_unit.m_target.m_tag.into()))
+    {
         Some(x) => x.clone(),
         None => {
-            match sc2_state
-                .units
-                .get(&unit_tag_index(target_unit.m_target.m_tag.into()))
-            {
-                Some(x) => x.clone(),
-                None => {
-                    tracing::warn!(
-                        "Unit not found for target unit: {}",
-                        target_unit.m_target.m_tag
-                    );
-                    return (
-                        ReplayGameEvent::CmdUpdateTargetUnit(target_unit),
-                        UnitChangeHint::None,
-                    );
-                }
-            }
+            tracing::warn!(
+                "Unit not found for target unit: {}",
+                target_unit.m_target.m_tag
+            );
+            return (
+                ReplayGameEvent::CmdUpdateTargetUnit(target_unit),
+                UnitChangeHint::None,
+            );
         }
     };
     let mut user_selected_unit_ids: Vec<u32> = vec![];
-- 
2.43.0


From b4a9dc5c6378037af005787efb77627350d48f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:58 +0000
Subject: [PATCH 06/36] fix: events about a control group that does not exist
 are not a panic

---
 src/game_events/state.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/game_events/state.rs b/src/game_events/state.rs
index 5a4aaa7..75b1be7 100644
--- a/src/game_events/state.rs
+++ b/src/game_events/state.rs
@@ -302,8 +302,13 @@ pub fn handle_selection_delta(
         updated_units.append(&mut marked_units);
     }
     if let Some(ref mut state) = sc2_state.user_state.get_mut(&user_id) {
-        state.control_groups[selection_delta.m_control_group_id as usize] =
-            selection_delta.m_delta.m_add_unit_tags.clone();
+        // The group id is not range checked by the protocol, there may be no such group.
+        if let Some(group) = state
+            .control_groups
+            .get_mut(selection_delta.m_control_group_id as usize)
+        {
+            group.clone_from(&selection_delta.m_delta.m_add_unit_tags);
+        }
     }
     updated_units.sort_unstable();
     updated_units.dedup();
@@ -322,6 +327,13 @@ pub fn update_control_group(
     user_id: i64,
     ctrl_group_evt: GameSControlGroupUpdateEvent,
 ) -> (ReplayGameEvent, UnitChangeHint) {
+    // The group index is not range checked by the protocol, there may be no such group.
+    if ctrl_group_evt.m_control_group_index as usize > ACTIVE_UNITS_GROUP_IDX {
+        return (
+            ReplayGameEvent::ControlGroupUpdate(ctrl_group_evt),
+            UnitChangeHint::None,
+        );
+    }
     let mut updated_units = match unmark_previously_selected_units(sc2_state, game_loop, user_id) {
         UnitChangeHint::Selection(units) => units,
         _ => unreachable!(),
-- 
2.43.0


From 158a18731eb403a8769b33dd6b95c79916005fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:58 +0000
Subject: [PATCH 07/36] fix: stealing units into a control group also takes
 them from the last group

---
 src/game_events/state.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/game_events/state.rs b/src/game_events/state.rs
index 75b1be7..1bd3581 100644
--- a/src/game_events/state.rs
+++ b/src/game_events/state.rs
@@ -350,7 +350,7 @@ pub fn update_control_group(
                 // Remove the instances from other groups first
                 let current_selected_units =
                     user_state.control_groups[ACTIVE_UNITS_GROUP_IDX].clone();
-                for group_idx in 0..9 {
+                for group_idx in 0..ACTIVE_UNITS_GROUP_IDX {
                     for unit in &current_selected_units {
                         user_state.control_groups[group_idx].retain(|&x| x != *unit);
                     }
@@ -381,7 +381,7 @@ pub fn update_control_group(
                 // Remove the instances from other groups first
                 let mut current_selected_units =
                     user_state.control_groups[ACTIVE_UNITS_GROUP_IDX].clone();
-                for group_idx in 0..9 {
+                for group_idx in 0..ACTIVE_UNITS_GROUP_IDX {
                     for unit in &current_selected_units {
                         user_state.control_groups[group_idx].retain(|&x| x != *unit);
                     }
-- 
2.43.0


From e080e7c4710e69d0fa984abca9dfb10deb52e6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:58 +0000
Subject: [PATCH 08/36] fix: storing the selection in a control group does not
 deselect the units

---
 src/game_events/state.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/game_events/state.rs b/src/game_events/state.rs
index 1bd3581..3759c03 100644
--- a/src/game_events/state.rs
+++ b/src/game_events/state.rs
@@ -394,21 +394,24 @@ pub fn update_control_group(
             }
         }
         GameEControlGroupUpdate::ERecall => {
-            let mut current_selected_units: Vec<u32> = vec![];
             if let Some(ref mut user_state) = sc2_state.user_state.get_mut(&user_id) {
                 user_state.control_groups[ACTIVE_UNITS_GROUP_IDX] = user_state.control_groups
                     [ctrl_group_evt.m_control_group_index as usize]
                     .clone();
-                current_selected_units = user_state.control_groups[ACTIVE_UNITS_GROUP_IDX].clone();
             }
-            let mut curr_units =
-                match mark_selected_units(sc2_state, game_loop, user_id, &current_selected_units) {
-                    UnitChangeHint::Selection(units) => units,
-                    _ => unreachable!(),
-                };
-            updated_units.append(&mut curr_units);
         }
     }
+    // Whatever the update was, the units in the active group are the selected ones.
+    let mut current_selected_units: Vec<u32> = vec![];
+    if let Some(user_state) = sc2_state.user_state.get(&user_id) {
+        current_selected_units = user_state.control_groups[ACTIVE_UNITS_GROUP_IDX].clone();
+    }
+    let mut curr_units =
+        match mark_selected_units(sc2_state, game_loop, user_id, &current_selected_units) {
+            UnitChangeHint::Selection(units) => units,
+            _ => unreachable!(),
+        };
+    updated_units.append(&mut curr_units);
     (
         ReplayGameEvent::ControlGroupUpdate(ctrl_group_evt),
         UnitChangeHint::Selection(updated_units),
-- 
2.43.0


From 5a2e74d8734f29b8766905a15c6d05678823e7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:58 +0000
Subject: [PATCH 09/36] fix: selection hints hold each unit once and as it is
 after the event

---
 src/game_events/state.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/game_events/state.rs b/src/game_events/state.rs
index 3759c03..2599146 100644
--- a/src/game_events/state.rs
+++ b/src/game_events/state.rs
@@ -310,14 +310,24 @@ pub fn handle_selection_delta(
             group.clone_from(&selection_delta.m_delta.m_add_unit_tags);
         }
     }
-    updated_units.sort_unstable();
-    updated_units.dedup();
     (
         ReplayGameEvent::SelectionDelta(selection_delta),
-        UnitChangeHint::Selection(updated_units),
+        UnitChangeHint::Selection(latest_unit_states(sc2_state, updated_units)),
     )
 }
 
+/// The units, each of them once and as it is now in the state.
+fn latest_unit_states(sc2_state: &SC2ReplayState, mut units: Vec<SC2Unit>) -> Vec<SC2Unit> {
+    units.sort_unstable();
+    units.dedup();
+    for unit in units.iter_mut() {
+        if let Some(latest) = sc2_state.units.get(&unit.tag_index) {
+            unit.clone_from(latest);
+        }
+    }
+    units
+}
+
 /// Handles control group update events
 /// These may be initializing or recalled
 #[tracing::instrument(level = "debug", skip(sc2_state))]
@@ -414,7 +424,7 @@ pub fn update_control_group(
     updated_units.append(&mut curr_units);
     (
         ReplayGameEvent::ControlGroupUpdate(ctrl_group_evt),
-        UnitChangeHint::Selection(updated_units),
+        UnitChangeHint::Selection(latest_unit_states(sc2_state, updated_units)),
     )
 }
 
-- 
2.43.0


From f7e3c117ceb05de40a6f3c3e134cc3c736be7f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:26 +0000
Subject: [PATCH 10/36] fix: units selected by a user without state do not stay
 marked forever

---
 src/game_events/state.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/game_events/state.rs b/src/game_events/state.rs
index 2599146..199254c 100644
--- a/src/game_events/state.rs
+++ b/src/game_events/state.rs
@@ -283,7 +283,10 @@ pub fn handle_selection_delta(
     selection_delta: GameSSelectionDeltaEvent,
 ) -> (ReplayGameEvent, UnitChangeHint) {
     let mut updated_units = vec![];
-    if selection_delta.m_control_group_id == ACTIVE_UNITS_GROUP_IDX as u8 {
+    // The selection of a user without state, such as an observer, is not tracked.
+    if selection_delta.m_control_group_id == ACTIVE_UNITS_GROUP_IDX as u8
+        && sc2_state.user_state.contains_key(&user_id)
+    {
         let mut unmarked_units =
             match unmark_previously_selected_units(sc2_state, game_loop, user_id) {
                 UnitChangeHint::Selection(units) => units,
-- 
2.43.0


From 21d27fb5a48e87f0f2306bbc8493ec2f3b05eb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:26 +0000
Subject: [PATCH 11/36] fix: a unit stays selected while another user has it
 selected

---
 src/game_events/state.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/game_events/state.rs b/src/game_events/state.rs
index 199254c..e69b4c2 100644
--- a/src/game_events/state.rs
+++ b/src/game_events/state.rs
@@ -218,11 +218,19 @@ pub fn unmark_previously_selected_units(
     user_id: i64,
 ) -> UnitChangeHint {
     let mut updated_unit_ids = vec![];
+    // Other users may have some of the units selected as well.
+    let selected_by_others: std::collections::HashSet<u32> = sc2_state
+        .user_state
+        .iter()
+        .filter(|(other_id, _)| **other_id != user_id)
+        .flat_map(|(_, state)| &state.control_groups[ACTIVE_UNITS_GROUP_IDX])
+        .map(|tag| unit_tag_index(*tag as i64))
+        .collect();
     if let Some(state) = sc2_state.user_state.get_mut(&user_id) {
         for prev_unit in &state.control_groups[ACTIVE_UNITS_GROUP_IDX] {
             let unit_index = unit_tag_index(*prev_unit as i64);
             if let Some(ref mut unit) = sc2_state.units.get_mut(&unit_index) {
-                if unit.is_selected {
+                if unit.is_selected && !selected_by_others.contains(&unit_index) {
                     unit.is_selected = false;
                     unit.radius *= 0.5;
                     updated_unit_ids.push(unit_index);
-- 
2.43.0


From fbc024cf8feb170cb6d7d7f6b5d1243299ebfa22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:26 +0000
Subject: [PATCH 12/36] fix: a selected unit that changes its type keeps the
 size of a selected unit

---
 src/state/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/state/mod.rs b/src/state/mod.rs
index d9c5d3a..7bd5d0f 100644
--- a/src/state/mod.rs
+++ b/src/state/mod.rs
@@ -96,7 +96,12 @@ impl SC2Unit {
     pub fn set_unit_props(&mut self, balance_units: &VersionedBalanceUnits) {
         let (radius, color) =
             get_unit_sized_color(&self.name, self.user_id.unwrap_or(0) as i64, balance_units);
-        self.radius = radius;
+        // Selected units are shown larger.
+        self.radius = if self.is_selected {
+            radius * 2.0
+        } else {
+            radius
+        };
         self.color = color;
     }
 }
-- 
2.43.0


From 81c5b4500335ad4cbee87fe175b0790dd885544a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:26 +0000
Subject: [PATCH 13/36] fix: a unit that is born into a selection is marked as
 selected

---
 src/state/mod.rs            | 11 ++++++++++-
 src/tracker_events/state.rs |  3 +++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/state/mod.rs b/src/state/mod.rs
index 7bd5d0f..4a04b7e 100644
--- a/src/state/mod.rs
+++ b/src/state/mod.rs
@@ -15,7 +15,7 @@ use crate::filters::SC2ReplayFilters;
 use crate::game_events::{
     GameEventIteratorState, VersionedBalanceUnit, VersionedBalanceUnits, handle_game_event,
 };
-use crate::tracker_events::{TrackertEventIteratorState, handle_tracker_event};
+use crate::tracker_events::{TrackertEventIteratorState, handle_tracker_event, unit_tag_index};
 use crate::{common::*, game_events::GameSPointMini};
 use game_events::GameSCmdEvent;
 use serde::{Deserialize, Serialize};
@@ -276,6 +276,15 @@ impl SC2ReplayState {
         self
     }
 
+    /// Whether the unit is part of the current selection of any user.
+    pub fn is_unit_selected(&self, tag_index: u32) -> bool {
+        self.user_state.values().any(|user_state| {
+            user_state.control_groups[ACTIVE_UNITS_GROUP_IDX]
+                .iter()
+                .any(|tag| unit_tag_index(*tag as i64) == tag_index)
+        })
+    }
+
     /// When an event is meant to be consumed (i.e. it's the next in order), then the state of the
     /// game needs to transition through the event, returning a Hint of what has changed.
     pub fn handle_transition_to_next_event(&mut self, event: SC2EventType) -> SC2EventIteratorItem {
diff --git a/src/tracker_events/state.rs b/src/tracker_events/state.rs
index 6a67b54..8a0f5d0 100644
--- a/src/tracker_events/state.rs
+++ b/src/tracker_events/state.rs
@@ -49,6 +49,7 @@ pub fn handle_unit_init(
         ),
         ..Default::default()
     };
+    sc2_unit.is_selected = sc2_state.is_unit_selected(sc2_unit.tag_index);
     sc2_unit.set_unit_props(&sc2_state.balance_units);
 
     #[cfg(feature = "tracing_info_level")]
@@ -119,6 +120,7 @@ pub fn handle_unit_born(
             ),
             ..Default::default()
         };
+        sc2_unit.is_selected = sc2_state.is_unit_selected(sc2_unit.tag_index);
         sc2_unit.set_unit_props(&sc2_state.balance_units);
         sc2_state
             .units
@@ -163,6 +165,7 @@ pub fn handle_unit_type_change(
             // In unit_type change there's no control_player_id
             ..Default::default()
         };
+        sc2_unit.is_selected = sc2_state.is_unit_selected(sc2_unit.tag_index);
         sc2_unit.set_unit_props(&sc2_state.balance_units);
         sc2_state
             .units
-- 
2.43.0


From efa3356e2e3f9cbd3523ad87acb998cf730bda4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:26 +0000
Subject: [PATCH 14/36] fix: a unit that died leaves the control groups

---
 src/tracker_events/state.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tracker_events/state.rs b/src/tracker_events/state.rs
index 8a0f5d0..b00ce2d 100644
--- a/src/tracker_events/state.rs
+++ b/src/tracker_events/state.rs
@@ -250,9 +250,11 @@ pub fn handle_unit_died(
     unit_dead: UnitDiedEvent,
 ) -> (ReplayTrackerEvent, UnitChangeHint) {
     // Clean up the unit from previous groups where it was selected.
+    // The groups hold the full tags of the units.
+    let dead_tag = unit_tag(unit_dead.unit_tag_index, unit_dead.unit_tag_recycle);
     for (_idx, state) in sc2_state.user_state.iter_mut() {
         for group_idx in 0..11 {
-            state.control_groups[group_idx].retain(|&x| x != unit_dead.unit_tag_index);
+            state.control_groups[group_idx].retain(|&x| i64::from(x) != dead_tag);
         }
     }
     match sc2_state.units.remove(&unit_dead.unit_tag_index) {
-- 
2.43.0


From 33b7353d6b77d94ea77dce13e9986c9714d0341d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:26 +0000
Subject: [PATCH 15/36] fix: the hint of a unit init is the unit in the state

---
 src/tracker_events/state.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tracker_events/state.rs b/src/tracker_events/state.rs
index b00ce2d..ab7bb82 100644
--- a/src/tracker_events/state.rs
+++ b/src/tracker_events/state.rs
@@ -61,6 +61,7 @@ pub fn handle_unit_init(
         unit.pos = Vec3D::new(unit_init.x as f32, unit_init.y as f32, 0.);
         unit.is_init = true;
         unit.name.clone_from(&unit_init.unit_type_name);
+        sc2_unit.clone_from(unit);
     } else {
         sc2_state
             .units
-- 
2.43.0


From 68869d43998fe3098cc96266e41774ba3f1c5a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:26 +0000
Subject: [PATCH 16/36] fix: a unit registered by its change of type is
 reported

---
 src/tracker_events/state.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tracker_events/state.rs b/src/tracker_events/state.rs
index ab7bb82..ec67118 100644
--- a/src/tracker_events/state.rs
+++ b/src/tracker_events/state.rs
@@ -173,7 +173,10 @@ pub fn handle_unit_type_change(
             .insert(unit_change.unit_tag_index, sc2_unit.clone());
         (
             ReplayTrackerEvent::UnitTypeChange(unit_change),
-            UnitChangeHint::None,
+            UnitChangeHint::Registered {
+                unit: Box::new(sc2_unit),
+                creator: None,
+            },
         )
     }
 }
-- 
2.43.0


From 1c8ccd60cf0599bd9e40819064ae466d9c60e756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:11 +0000
Subject: [PATCH 17/36] fix: a limit of n events returns n events

---
 src/state/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/state/mod.rs b/src/state/mod.rs
index 4a04b7e..05fb5d2 100644
--- a/src/state/mod.rs
+++ b/src/state/mod.rs
@@ -684,6 +684,11 @@ impl Iterator for SC2EventIterator {
     type Item = SC2EventIteratorItem;
 
     fn next(&mut self) -> Option<Self::Item> {
+        if let Some(filters) = &self.filters
+            && filters.is_max_event_reached()
+        {
+            return None;
+        }
         loop {
             // Fill the next_tracker_event if they are empty.
             if self.next_tracker_event.is_none() {
@@ -729,9 +734,6 @@ impl Iterator for SC2EventIterator {
                     continue;
                 }
                 filters.decrease_allowed_event_counter();
-                if filters.is_max_event_reached() {
-                    return None;
-                }
             }
             #[cfg(feature = "tracing_info_level")]
             iterator_item.emit_info_log();
-- 
2.43.0


From 32635d4e1bf49aadf1dd32414243428d64572423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:11 +0000
Subject: [PATCH 18/36] fix: events of loops that f32 can not represent are
 returned in order

---
 src/state/mod.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/state/mod.rs b/src/state/mod.rs
index 05fb5d2..118faab 100644
--- a/src/state/mod.rs
+++ b/src/state/mod.rs
@@ -710,9 +710,8 @@ impl Iterator for SC2EventIterator {
             let event: SC2EventType = match (next_tracker_event_loop, next_game_event_loop) {
                 (Some(next_tracker_event_loop), Some(next_game_event_loop)) => {
                     // Both events are populated, compare the loop and return the lowest one
-                    if next_tracker_event_loop
-                        < (next_game_event_loop as f32 * TRACKER_SPEED_RATIO) as i64
-                    {
+                    // The units of both loops are the same, see TRACKER_SPEED_RATIO.
+                    if next_tracker_event_loop < next_game_event_loop {
                         self.next_tracker_event.take().unwrap()
                     } else {
                         self.next_game_event.take().unwrap()
-- 
2.43.0


From 07064b3a7fec4496bde33d1ff6e47680c19ec090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:11 +0000
Subject: [PATCH 19/36] fix: an event iterator that met a damaged event stays
 ended

---
 src/game_events/iterator.rs    | 3 ++-
 src/tracker_events/iterator.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/game_events/iterator.rs b/src/game_events/iterator.rs
index 2305d59..ce414e2 100644
--- a/src/game_events/iterator.rs
+++ b/src/game_events/iterator.rs
@@ -124,7 +124,8 @@ impl GameEventIteratorState {
                 Err(S2ProtocolError::UnsupportedEventType) => {}
                 Err(err) => {
                     // At this point we can't read the events, our state is either corrupted or the
-                    // SC2ReplayState is corrupted.
+                    // SC2ReplayState is corrupted. There are no further events.
+                    self.byte_index = self.event_data.len();
                     tracing::error!("Error reading game event: {:?}", err);
                     return None;
                 }
diff --git a/src/tracker_events/iterator.rs b/src/tracker_events/iterator.rs
index 6c79787..2855a56 100644
--- a/src/tracker_events/iterator.rs
+++ b/src/tracker_events/iterator.rs
@@ -84,7 +84,8 @@ impl TrackertEventIteratorState {
                 Err(S2ProtocolError::UnsupportedEventType) => {}
                 Err(err) => {
                     // At this point we can't read the events, our state is either corrupted or the
-                    // SC2ReplayState is corrupted.
+                    // SC2ReplayState is corrupted. There are no further events.
+                    self.byte_index = self.event_data.len();
                     tracing::error!("Error reading tracker event: {:?}", err);
                     return None;
                 }
-- 
2.43.0


From 2dd186a39ad9779245f0d65f7977554803403bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:11 +0000
Subject: [PATCH 20/36] fix: damaged loop deltas and unit positions do not
 overflow

---
 src/game_events/iterator.rs          | 4 ++--
 src/tracker_events/iterator.rs       | 4 ++--
 src/tracker_events/unit_positions.rs | 6 +++---
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/game_events/iterator.rs b/src/game_events/iterator.rs
index ce414e2..9a2c8bc 100644
--- a/src/game_events/iterator.rs
+++ b/src/game_events/iterator.rs
@@ -52,7 +52,7 @@ impl GameEventIteratorState {
                 self.byte_index += tail_byte.as_ptr() as usize
                     - self.event_data[self.byte_index..].as_ptr() as usize;
                 self.bit_index = tail_bit;
-                self.event_loop += delta;
+                self.event_loop = self.event_loop.saturating_add(delta);
                 (delta, user_id, event.try_into()?)
             }
             _ => {
@@ -65,7 +65,7 @@ impl GameEventIteratorState {
                 self.byte_index += tail_byte.as_ptr() as usize
                     - self.event_data[self.byte_index..].as_ptr() as usize;
                 self.bit_index = tail_bit;
-                self.event_loop += delta;
+                self.event_loop = self.event_loop.saturating_add(delta);
                 (delta, user_id, event.try_into()?)
             }
         };
diff --git a/src/tracker_events/iterator.rs b/src/tracker_events/iterator.rs
index 2855a56..ff6f083 100644
--- a/src/tracker_events/iterator.rs
+++ b/src/tracker_events/iterator.rs
@@ -43,7 +43,7 @@ impl TrackertEventIteratorState {
                 )?;
                 self.byte_index +=
                     tail.as_ptr() as usize - self.event_data[self.byte_index..].as_ptr() as usize;
-                self.event_loop += delta as i64;
+                self.event_loop = self.event_loop.saturating_add(delta as i64);
                 (delta, event.try_into()?)
             }
             _ => {
@@ -53,7 +53,7 @@ impl TrackertEventIteratorState {
                 )?;
                 self.byte_index +=
                     tail.as_ptr() as usize - self.event_data[self.byte_index..].as_ptr() as usize;
-                self.event_loop += delta as i64;
+                self.event_loop = self.event_loop.saturating_add(delta as i64);
                 (delta, event.try_into()?)
             }
         };
diff --git a/src/tracker_events/unit_positions.rs b/src/tracker_events/unit_positions.rs
index b010c75..c33c3b8 100644
--- a/src/tracker_events/unit_positions.rs
+++ b/src/tracker_events/unit_positions.rs
@@ -39,9 +39,9 @@ impl UnitPositionsEvent {
         let mut unit_index = self.first_unit_index as i32;
         let mut res = vec![];
         for relative_unit_pos in self.items.chunks_exact(3) {
-            unit_index += relative_unit_pos[0];
-            let x = relative_unit_pos[1] * 4;
-            let y = relative_unit_pos[2] * 4;
+            unit_index = unit_index.wrapping_add(relative_unit_pos[0]);
+            let x = relative_unit_pos[1].wrapping_mul(4);
+            let y = relative_unit_pos[2].wrapping_mul(4);
             res.push(UnitPosition {
                 tag: unit_index as u32,
                 x,
-- 
2.43.0


From 63ccab11531195cf7e7f31f8e9d195fd08e67792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:04 +0000
Subject: [PATCH 21/36] fix: readers of all events report an undecodable event
 instead of dropping it

---
 src/versions/protocol75689/mod.rs                | 5 +++--
 src/versions/protocol87702/events/game/mod.rs    | 5 +++--
 src/versions/protocol87702/events/message/mod.rs | 5 +++--
 src/versions/protocol87702/events/tracker/mod.rs | 5 +++--
 4 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/versions/protocol75689/mod.rs b/src/versions/protocol75689/mod.rs
index 7b50b0d..2f2a38a 100644
--- a/src/versions/protocol75689/mod.rs
+++ b/src/versions/protocol75689/mod.rs
@@ -1238,9 +1238,10 @@ pub mod bit_packed {
                         user_id,
                         event: val,
                     }),
-                    Err(err) => {
-                        tracing::debug!("Skipping event: {:?}", err);
+                    Err(S2ProtocolError::UnsupportedEventType) => {
+                        tracing::debug!("Skipping unsupported event");
                     }
+                    Err(err) => return Err(err),
                 };
                 if event_tail.0.input_len() == 0 {
                     break;
diff --git a/src/versions/protocol87702/events/game/mod.rs b/src/versions/protocol87702/events/game/mod.rs
index b483ca7..7e563bb 100644
--- a/src/versions/protocol87702/events/game/mod.rs
+++ b/src/versions/protocol87702/events/game/mod.rs
@@ -53,9 +53,10 @@ impl GameEEventId {
                     user_id,
                     event: val,
                 }),
-                Err(err) => {
-                    tracing::debug!("Skipping event: {:?}", err);
+                Err(S2ProtocolError::UnsupportedEventType) => {
+                    tracing::debug!("Skipping unsupported event");
                 }
+                Err(err) => return Err(err),
             };
             if event_tail.0.input_len() == 0 {
                 break;
diff --git a/src/versions/protocol87702/events/message/mod.rs b/src/versions/protocol87702/events/message/mod.rs
index b5ce351..c200633 100644
--- a/src/versions/protocol87702/events/message/mod.rs
+++ b/src/versions/protocol87702/events/message/mod.rs
@@ -47,9 +47,10 @@ impl GameEMessageId {
                     user_id,
                     event: val,
                 }),
-                Err(err) => {
-                    tracing::debug!("Skipping event: {:?}", err);
+                Err(MessageEventError::UnsupportedEventType) => {
+                    tracing::debug!("Skipping unsupported event");
                 }
+                Err(MessageEventError::Utf8Error(err)) => return Err(err.into()),
             };
             if event_tail.0.input_len() == 0 {
                 break;
diff --git a/src/versions/protocol87702/events/tracker/mod.rs b/src/versions/protocol87702/events/tracker/mod.rs
index ee97a2d..51d7e72 100644
--- a/src/versions/protocol87702/events/tracker/mod.rs
+++ b/src/versions/protocol87702/events/tracker/mod.rs
@@ -37,9 +37,10 @@ impl ReplayTrackerEEventId {
             event_tail = new_event_tail;
             match event.try_into() {
                 Ok(val) => res.push(TrackerEvent { delta, event: val }),
-                Err(err) => {
-                    tracing::debug!("Skipping event: {:?}", err);
+                Err(S2ProtocolError::UnsupportedEventType) => {
+                    tracing::debug!("Skipping unsupported event");
                 }
+                Err(err) => return Err(err),
             };
             if event_tail.input_len() == 0 {
                 break;
-- 
2.43.0


From 9a441d878812eae7afb6b11b948d9e12f3dea629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:04 +0000
Subject: [PATCH 22/36] fix: an ill-formed balance XML file affects only itself

---
 src/game_events/ability/balance_data/mod.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/game_events/ability/balance_data/mod.rs b/src/game_events/ability/balance_data/mod.rs
index 85de2fb..b8680d2 100644
--- a/src/game_events/ability/balance_data/mod.rs
+++ b/src/game_events/ability/balance_data/mod.rs
@@ -59,8 +59,16 @@ pub fn traverse_versioned_balance_abilities(
                 && path.is_file()
             {
                 tracing::debug!("Processing XML file: {:?}", path);
-                let files_content = std::fs::read_to_string(&path)?;
-                let unit = match serde_xml_rs::from_str::<VersionedBalanceUnit>(&files_content) {
+                // Files that are not valid UTF-8 are as ill-formed as those that are not valid XML.
+                let files_content = std::fs::read(&path)?;
+                let files_content = match std::str::from_utf8(&files_content) {
+                    Ok(val) => val,
+                    Err(err) => {
+                        tracing::error!("Failed to read XML file {:?}: {}", path, err);
+                        continue;
+                    }
+                };
+                let unit = match serde_xml_rs::from_str::<VersionedBalanceUnit>(files_content) {
                     Ok(val) => val,
                     Err(err) => {
                         tracing::error!("Failed to parse XML file {:?}: {}", path, err);
-- 
2.43.0


From 614ed152b5455d086c4f16c2180ba190bcfee5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:04 +0000
Subject: [PATCH 23/36] fix: the name of a balance unit may end in .json

---
 src/game_events/ability/balance_data/json_handler.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/game_events/ability/balance_data/json_handler.rs b/src/game_events/ability/balance_data/json_handler.rs
index 164868f..82ac5c0 100644
--- a/src/game_events/ability/balance_data/json_handler.rs
+++ b/src/game_events/ability/balance_data/json_handler.rs
@@ -76,10 +76,10 @@ pub fn read_balance_data_from_json_dir<P: AsRef<Path>>(
                 let file_path = entry.path();
                 let versioned_balance_unit: VersionedBalanceUnit =
                     serde_json::from_reader(File::open(file_path)?)?;
-                let unit_name = entry
-                    .file_name()
-                    .to_string_lossy()
-                    .trim_end_matches(".json")
+                let file_name = entry.file_name().to_string_lossy().to_string();
+                let unit_name = file_name
+                    .strip_suffix(".json")
+                    .unwrap_or(&file_name)
                     .to_string();
                 balance_data.insert((version, unit_name), versioned_balance_unit);
             }
-- 
2.43.0


From a9e3d087df99bb22e8944b3afd04fd48862cb9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:51 +0000
Subject: [PATCH 24/36] fix: a damaged cache handle does not abort the export

---
 src/details.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/details.rs b/src/details.rs
index b975a39..166f7d8 100644
--- a/src/details.rs
+++ b/src/details.rs
@@ -81,6 +81,10 @@ impl From<PlayerLobbyDetails> for PlayerLobbyDetailsFlatRow {
         let mut cache_handle_region = None;
         let mut cache_handle_extension = None;
         for cache_handle in &source.cache_handles {
+            // The extension, delimiter and region are 16 characters, a damaged handle may be shorter.
+            if cache_handle.len() < 16 {
+                continue;
+            }
             // 8 characters for the extension
             let (ext_str, remaining) = cache_handle.split_at(8);
             let extension = make_string_from_hex_chars(ext_str);
-- 
2.43.0


From 2bf486b16a1f10002ddd8831947041f4e1df63ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:51 +0000
Subject: [PATCH 25/36] fix: a file name that is not UTF-8 does not abort the
 directory scan

---
 src/dir_stats.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dir_stats.rs b/src/dir_stats.rs
index 70a287b..d967da0 100644
--- a/src/dir_stats.rs
+++ b/src/dir_stats.rs
@@ -106,7 +106,7 @@ pub fn try_read_init_data(
     let mpq = parse_mpq(&file_contents)?;
     let source_path: String = source
         .to_str()
-        .expect("Failed to convert file name to str")
+        .ok_or("Failed to convert file name to str")?
         .to_string();
     // NOTE: A fake "ext_fs_id" is created because the current impl is thought
     // of mainly for writing arrow ipc files... Maybe this is not a good idea.
-- 
2.43.0


From 0f5e65a614b8865464e11290e0883bb40484de91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:51 +0000
Subject: [PATCH 26/36] fix: players and maps that are as frequent are ranked
 by name, not at random

---
 src/dir_stats.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dir_stats.rs b/src/dir_stats.rs
index d967da0..9ec6551 100644
--- a/src/dir_stats.rs
+++ b/src/dir_stats.rs
@@ -88,10 +88,10 @@ pub fn scan_path(
     }
 
     let mut user_freq_vec: Vec<(String, usize)> = user_freq.into_iter().collect();
-    user_freq_vec.sort_by_key(|b| std::cmp::Reverse(b.1));
+    user_freq_vec.sort_by(|a, b| b.1.cmp(&a.1).then_with(|| a.0.cmp(&b.0)));
     stats.top_10_players = user_freq_vec.into_iter().take(10).collect();
     let mut map_freq_vec: Vec<(String, usize)> = map_freq.into_iter().collect();
-    map_freq_vec.sort_by_key(|b| std::cmp::Reverse(b.1));
+    map_freq_vec.sort_by(|a, b| b.1.cmp(&a.1).then_with(|| a.0.cmp(&b.0)));
     stats.top_10_maps = map_freq_vec.into_iter().take(10).collect();
 
     Ok(stats)
-- 
2.43.0


From 7c0959f4550b3efd2f304a70f1a2fc2cdcf1c4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:51 +0000
Subject: [PATCH 27/36] fix: an export without an output directory or replays
 is an error, not a panic

---
 src/arrow_store/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arrow_store/mod.rs b/src/arrow_store/mod.rs
index b86671d..ac01238 100644
--- a/src/arrow_store/mod.rs
+++ b/src/arrow_store/mod.rs
@@ -150,7 +150,7 @@ impl ArrowIpcTypes {
         disable_parallel_scans: bool,
     ) -> Result<(), Box<dyn std::error::Error>> {
         if !output.is_dir() {
-            panic!("Output must be a directory for types 'all'");
+            return Err("Output must be a directory for types 'all'".into());
         }
         // output must be a directory, for this directory we will create the following files:
         // details.arrow
@@ -464,7 +464,7 @@ impl ArrowIpcTypes {
             .take(cmd.process_max_files)
             .collect();
         if sources.is_empty() {
-            panic!("No files found");
+            return Err("No files found".into());
         } else {
             println!(
                 "{} files have valid init data, processing...",
-- 
2.43.0


From cce71b350d319d6d542b2dc71a2e747d5197eead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:04 +0000
Subject: [PATCH 28/36] fix: an export whose rows can not be written is an
 error

---
 src/arrow_store/ipc_writer.rs | 12 +++++-------
 src/arrow_store/mod.rs        | 18 +++++++++---------
 2 files changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/arrow_store/ipc_writer.rs b/src/arrow_store/ipc_writer.rs
index aeb01b8..e75f37f 100644
--- a/src/arrow_store/ipc_writer.rs
+++ b/src/arrow_store/ipc_writer.rs
@@ -43,15 +43,15 @@ pub fn write_to_arrow_mutex_writer(
     writer: &std::sync::Mutex<FileWriter<std::fs::File>>,
     res: ArrayRef,
     batch_length: usize,
-) -> Option<usize> {
+) -> Result<usize, arrow::error::ArrowError> {
     if batch_length == 0 {
-        return None;
+        return Ok(0);
     }
     let mut file_lock = match writer.lock() {
         Ok(lock) => lock,
         Err(err) => {
             tracing::error!("Error locking file: {:?}", err);
-            return None;
+            return Err(arrow::error::ArrowError::IpcError("Lock error".to_string()));
         }
     };
     let chunk: RecordBatch = res
@@ -60,12 +60,10 @@ pub fn write_to_arrow_mutex_writer(
         .unwrap()
         .into();
     match file_lock.write(&chunk) {
-        Ok(_) => Some(batch_length),
+        Ok(_) => Ok(batch_length),
         Err(err) => {
-            // At this point maybe we should fail because the lock write
-            // should fail for any other parallel process.
             tracing::error!("Error writing chunk: {:?}", err);
-            None
+            Err(err)
         }
     }
 }
diff --git a/src/arrow_store/mod.rs b/src/arrow_store/mod.rs
index ac01238..286ff04 100644
--- a/src/arrow_store/mod.rs
+++ b/src/arrow_store/mod.rs
@@ -2,7 +2,7 @@
 
 #[cfg(feature = "dep_arrow")]
 use arrow::{
-    array::Array, array::ArrayRef, datatypes::DataType, datatypes::Schema,
+    array::Array, array::ArrayRef, datatypes::DataType, datatypes::Schema, error::ArrowError,
     record_batch::RecordBatch,
 };
 #[cfg(feature = "dep_arrow")]
@@ -239,9 +239,9 @@ impl ArrowIpcTypes {
                         }
                         _ => unimplemented!(),
                     };
-                    write_to_arrow_mutex_writer(&writer, res, batch_len)
+                    Some(write_to_arrow_mutex_writer(&writer, res, batch_len))
                 })
-                .sum::<usize>()
+                .sum::<Result<usize, ArrowError>>()?
         } else {
             sources
                 .par_iter()
@@ -267,9 +267,9 @@ impl ArrowIpcTypes {
                         }
                         _ => unimplemented!(),
                     };
-                    write_to_arrow_mutex_writer(&writer, res, batch_len)
+                    Some(write_to_arrow_mutex_writer(&writer, res, batch_len))
                 })
-                .sum::<usize>()
+                .sum::<Result<usize, ArrowError>>()?
         };
         tracing::info!("Loaded {} records", total_records);
         close_arrow_mutex_writer(writer)
@@ -307,9 +307,9 @@ impl ArrowIpcTypes {
                         }
                         e => unimplemented!("{:?}", e),
                     };
-                    write_to_arrow_mutex_writer(&writer, res, batch_len)
+                    Some(write_to_arrow_mutex_writer(&writer, res, batch_len))
                 })
-                .sum::<usize>()
+                .sum::<Result<usize, ArrowError>>()?
         } else {
             sources
                 .par_iter()
@@ -329,9 +329,9 @@ impl ArrowIpcTypes {
                         }
                         e => unimplemented!("{:?}", e),
                     };
-                    write_to_arrow_mutex_writer(&writer, res, batch_len)
+                    Some(write_to_arrow_mutex_writer(&writer, res, batch_len))
                 })
-                .sum::<usize>()
+                .sum::<Result<usize, ArrowError>>()?
         };
         tracing::info!("Loaded {} records", total_records);
         close_arrow_mutex_writer(writer)
-- 
2.43.0


From 645728d73643717a4c32a932066469c84a6620d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:23 +0000
Subject: [PATCH 29/36] fix: optional values are read after the bit that
 announces them

---
 src/generator/decoder_type.rs     | 6 ++++--
 src/versions/protocol87702/mod.rs | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/generator/decoder_type.rs b/src/generator/decoder_type.rs
index 929b990..bd9522d 100644
--- a/src/generator/decoder_type.rs
+++ b/src/generator/decoder_type.rs
@@ -875,14 +875,14 @@ impl DecoderType {
                     let array_size_bits =
                         (array_length.parse::<f32>().unwrap().log2() + 1.).floor() as usize;
                     type_impl_def.push_str(&format!(
-                        "let (tail, array_length) = take_n_bits_into_i64(input, {array_size_bits})?;\n\
+                        "let (tail, array_length) = take_n_bits_into_i64(tail, {array_size_bits})?;\n\
                         let array_length = array_length as usize;\n\
                          tracing::debug!(\"Reading array length: {array_length}\");\n\
                          "
                     ));
                     if is_bit_array {
                         type_impl_def.push_str(&format!(
-                            "let (tail, array) = take_bit_array(input, array_length)?;\n"
+                            "let (tail, array) = take_bit_array(tail, array_length)?;\n"
                         ));
                     } else {
                         type_impl_def.push_str(&format!(
@@ -897,6 +897,8 @@ impl DecoderType {
                     type_impl_def.push_str("(tail, Some(array))");
                 } else {
                     if field_value_parser.contains("input,") {
+                        // The value follows the bit that tells whether it is provided.
+                        let field_value_parser = field_value_parser.replace("input,", "tail,");
                         type_impl_def
                             .push_str(&format!("let (tail, res) = {field_value_parser}?;\n"));
                     } else {
diff --git a/src/versions/protocol87702/mod.rs b/src/versions/protocol87702/mod.rs
index 71d60bc..cc0845a 100644
--- a/src/versions/protocol87702/mod.rs
+++ b/src/versions/protocol87702/mod.rs
@@ -6207,7 +6207,7 @@ pub mod bit_packed {
         ) -> S2ProtoResult<(&[u8], usize), Option<Vec<Uint8>>> {
             let (tail, is_provided): ((&[u8], usize), bool) = parse_bool(input)?;
             let (tail, m_data_deprecated) = if is_provided {
-                let (mut tail, array_length) = take_n_bits_into_i64(input, 5)?;
+                let (mut tail, array_length) = take_n_bits_into_i64(tail, 5)?;
                 let array_length = array_length as usize;
                 tracing::debug!("Reading array length: {array_length}");
                 let max_initial_capacity =
@@ -12478,7 +12478,7 @@ pub mod bit_packed {
         ) -> S2ProtoResult<(&[u8], usize), Option<i64>> {
             let (tail, is_provided): ((&[u8], usize), bool) = parse_bool(input)?;
             let (tail, m_sequence) = if is_provided {
-                let (tail, res) = parse_packed_int(input, 1, 32usize)?;
+                let (tail, res) = parse_packed_int(tail, 1, 32usize)?;
                 (tail, Some(res))
             } else {
                 (tail, None)
-- 
2.43.0


From 7f72334f354a64fd1b7bba356f3821e7fbddf313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:48 +0000
Subject: [PATCH 30/36] fix: a damaged time of a match does not abort the
 export

---
 src/details.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/details.rs b/src/details.rs
index 166f7d8..8fc51da 100644
--- a/src/details.rs
+++ b/src/details.rs
@@ -284,7 +284,9 @@ impl Details {
 
     /// Sets the metadata related to the filesystem entry and the replay time
     pub fn set_metadata(mut self, ext_fs_id: u64) -> Self {
+        // A damaged time may be valid but not representable as a timestamp of a table.
         self.ext_datetime = crate::transform_to_naivetime(self.time_utc, self.time_local_offset)
+            .filter(|datetime| datetime.and_utc().timestamp_nanos_opt().is_some())
             .unwrap_or_default();
         self.ext_fs_id = ext_fs_id;
         self
-- 
2.43.0


From 173eb3624775b65278c990589ffe5386c8303079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:48 +0000
Subject: [PATCH 31/36] fix: lobby slot changes of protocol 75689 have the
 fields of that protocol

---
 src/versions/protocol75689/mod.rs | 48 ++++++++++++++++++++++++++++++-
 1 file changed, 47 insertions(+), 1 deletion(-)

diff --git a/src/versions/protocol75689/mod.rs b/src/versions/protocol75689/mod.rs
index 2f2a38a..b6d5d84 100644
--- a/src/versions/protocol75689/mod.rs
+++ b/src/versions/protocol75689/mod.rs
@@ -164,7 +164,6 @@ pub mod bit_packed {
     pub use crate::versions::protocol87702::bit_packed::GameSSetAbsoluteGameSpeedEvent;
     pub use crate::versions::protocol87702::bit_packed::GameSSetGameDurationEvent;
     pub use crate::versions::protocol87702::bit_packed::GameSSetGameSpeedEvent;
-    pub use crate::versions::protocol87702::bit_packed::GameSSetLobbySlotEvent;
     pub use crate::versions::protocol87702::bit_packed::GameSSetSyncLoadingTimeEvent;
     pub use crate::versions::protocol87702::bit_packed::GameSSetSyncPlayingTimeEvent;
     pub use crate::versions::protocol87702::bit_packed::GameSSingleStepGameEvent;
@@ -1928,6 +1927,53 @@ pub mod bit_packed {
         }
     }
 
+    #[derive(Debug, PartialEq, Clone)]
+    pub struct GameSSetLobbySlotEvent {
+        pub m_slot_id: GameTLobbySlotId,
+        pub m_slot_change: GameSLobbySlotChange,
+    }
+    impl GameSSetLobbySlotEvent {
+        #[tracing::instrument(level = "trace", skip(input), fields(peek = peek_bits(input)))]
+        pub fn parse_m_slot_id(
+            input: (&[u8], usize),
+        ) -> S2ProtoResult<(&[u8], usize), GameTLobbySlotId> {
+            let (tail, m_slot_id) = GameTLobbySlotId::parse(input)?;
+            tracing::trace!("m_slot_id: {:?}", m_slot_id);
+            Ok((tail, m_slot_id))
+        }
+        #[tracing::instrument(level = "trace", skip(input), fields(peek = peek_bits(input)))]
+        pub fn parse_m_slot_change(
+            input: (&[u8], usize),
+        ) -> S2ProtoResult<(&[u8], usize), GameSLobbySlotChange> {
+            let (tail, m_slot_change) = GameSLobbySlotChange::parse(input)?;
+            tracing::trace!("m_slot_change: {:?}", m_slot_change);
+            Ok((tail, m_slot_change))
+        }
+        #[tracing::instrument(name="75689::bit_packed::GameSSetLobbySlotEvent::Parse", level = "trace", skip(input), fields(peek = peek_bits(input)))]
+        pub fn parse(input: (&[u8], usize)) -> S2ProtoResult<(&[u8], usize), Self> {
+            let mut tail = input;
+            let mut m_slot_id: Option<GameTLobbySlotId> = None;
+            let mut m_slot_change: Option<GameSLobbySlotChange> = None;
+            if m_slot_id.is_none() {
+                let (new_tail, parsed_m_slot_id) = Self::parse_m_slot_id(tail)?;
+                tail = new_tail;
+                m_slot_id = Some(parsed_m_slot_id);
+            }
+            if m_slot_change.is_none() {
+                let (new_tail, parsed_m_slot_change) = Self::parse_m_slot_change(tail)?;
+                tail = new_tail;
+                m_slot_change = Some(parsed_m_slot_change);
+            }
+            Ok((
+                tail,
+                Self {
+                    m_slot_id: ok_or_return_missing_field_err!(m_slot_id),
+                    m_slot_change: ok_or_return_missing_field_err!(m_slot_change),
+                },
+            ))
+        }
+    }
+
     #[derive(Debug, PartialEq, Clone)]
     pub enum GameSLobbySlotChange {
         MControl(GameTControlId),
-- 
2.43.0


From 073dff7523eedc74776e8bf12f6db70ece20b2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:48 +0000
Subject: [PATCH 32/36] fix: the lobby slots of protocol 75689 are read with
 the fields of that protocol

---
 src/versions/protocol75689/mod.rs | 135 +++++++++++++++++++++++++++++-
 1 file changed, 134 insertions(+), 1 deletion(-)

diff --git a/src/versions/protocol75689/mod.rs b/src/versions/protocol75689/mod.rs
index b6d5d84..ebc8398 100644
--- a/src/versions/protocol75689/mod.rs
+++ b/src/versions/protocol75689/mod.rs
@@ -32,6 +32,7 @@ pub mod bit_packed {
     //! Generated code from source: ../s2protocol/json/protocol75689.json
     use crate::game_events::ReplayGameEvent;
     use crate::versions::GameEvent;
+    use crate::versions::protocol87702::bit_packed as protocol87702;
     pub use crate::versions::protocol87702::bit_packed::CAllowedObserveTypes;
     pub use crate::versions::protocol87702::bit_packed::CAllowedRaces;
     pub use crate::versions::protocol87702::bit_packed::CArtifactHandle;
@@ -295,7 +296,6 @@ pub mod bit_packed {
     pub use crate::versions::protocol87702::bit_packed::Int64;
     pub use crate::versions::protocol87702::bit_packed::MEventData;
     pub use crate::versions::protocol87702::bit_packed::ReplaySGameUserId;
-    pub use crate::versions::protocol87702::bit_packed::ReplaySInitData;
     pub use crate::versions::protocol87702::bit_packed::SUserInitialData;
     pub use crate::versions::protocol87702::bit_packed::SVarUint32;
     pub use crate::versions::protocol87702::bit_packed::SVersion;
@@ -2151,4 +2151,137 @@ pub mod bit_packed {
             }
         }
     }
+
+    impl From<GameSLobbySlot> for protocol87702::GameSLobbySlot {
+        /// The fields that are only known to the newer protocol are left empty.
+        fn from(source: GameSLobbySlot) -> Self {
+            Self {
+                m_control: source.m_control,
+                m_user_id: source.m_user_id,
+                m_team_id: source.m_team_id,
+                m_color_pref: source.m_color_pref,
+                m_race_pref: source.m_race_pref,
+                m_difficulty: source.m_difficulty,
+                m_ai_build: source.m_ai_build,
+                m_handicap: protocol87702::GameTHandicap {
+                    value: Uint32 {
+                        value: source.m_handicap.value,
+                    },
+                },
+                m_observe: source.m_observe,
+                m_logo_index: source.m_logo_index,
+                m_hero: source.m_hero,
+                m_skin: source.m_skin,
+                m_mount: source.m_mount,
+                m_artifacts: source.m_artifacts,
+                m_working_set_slot_id: source.m_working_set_slot_id,
+                m_rewards: source.m_rewards,
+                m_toon_handle: source.m_toon_handle,
+                m_licenses: protocol87702::GameCLicenseArray {
+                    value: source.m_licenses.value,
+                },
+                m_tandem_leader_id: source.m_tandem_leader_id,
+                m_commander: source.m_commander,
+                m_commander_level: source.m_commander_level,
+                m_has_silence_penalty: source.m_has_silence_penalty,
+                m_tandem_id: source.m_tandem_id,
+                m_commander_mastery_level: source.m_commander_mastery_level,
+                m_commander_mastery_talents: source.m_commander_mastery_talents,
+                m_trophy_id: source.m_trophy_id,
+                m_reward_overrides: source.m_reward_overrides,
+                m_brutal_plus_difficulty: Uint32 { value: 0 },
+                m_retry_mutation_indexes: protocol87702::GameCRetryMutationIndexArray {
+                    value: vec![],
+                },
+                m_a_c_enemy_race: Uint32 { value: 0 },
+                m_a_c_enemy_wave_type: Uint32 { value: 0 },
+                m_selected_commander_prestige: Uint32 { value: 0 },
+            }
+        }
+    }
+
+    /// The init data, it differs from protocol87702 in the lobby slots.
+    #[derive(Debug, PartialEq, Clone)]
+    pub struct ReplaySInitData {
+        pub m_sync_lobby_state: GameSLobbySyncState,
+    }
+    impl ReplaySInitData {
+        #[tracing::instrument(name="75689::bit_packed::ReplaySInitData::parse_m_slots", level = "trace", skip(input), fields(peek = peek_bits(input)))]
+        pub fn parse_m_slots(
+            input: (&[u8], usize),
+        ) -> S2ProtoResult<(&[u8], usize), GameCLobbySlotArray> {
+            let array_length_num_bits: usize = 5;
+            let (mut tail, array_length) = parse_packed_int(input, 0, array_length_num_bits)?;
+            let mut value = vec![];
+            for _ in 0..array_length {
+                let (new_tail, slot) = GameSLobbySlot::parse(tail)?;
+                tail = new_tail;
+                value.push(slot.into());
+            }
+            Ok((tail, GameCLobbySlotArray { value }))
+        }
+        #[tracing::instrument(name="75689::bit_packed::ReplaySInitData::parse_m_lobby_state", level = "trace", skip(input), fields(peek = peek_bits(input)))]
+        pub fn parse_m_lobby_state(
+            input: (&[u8], usize),
+        ) -> S2ProtoResult<(&[u8], usize), GameSLobbyState> {
+            let (tail, m_phase) = GameSLobbyState::parse_m_phase(input)?;
+            let (tail, m_max_users) = GameSLobbyState::parse_m_max_users(tail)?;
+            let (tail, m_max_observers) = GameSLobbyState::parse_m_max_observers(tail)?;
+            let (tail, m_slots) = Self::parse_m_slots(tail)?;
+            let (tail, m_random_seed) = GameSLobbyState::parse_m_random_seed(tail)?;
+            let (tail, m_host_user_id) = GameSLobbyState::parse_m_host_user_id(tail)?;
+            let (tail, m_is_single_player) = GameSLobbyState::parse_m_is_single_player(tail)?;
+            let (tail, m_picked_map_tag) = GameSLobbyState::parse_m_picked_map_tag(tail)?;
+            let (tail, m_game_duration) = GameSLobbyState::parse_m_game_duration(tail)?;
+            let (tail, m_default_difficulty) = GameSLobbyState::parse_m_default_difficulty(tail)?;
+            let (tail, m_default_ai_build) = GameSLobbyState::parse_m_default_ai_build(tail)?;
+            Ok((
+                tail,
+                GameSLobbyState {
+                    m_phase,
+                    m_max_users,
+                    m_max_observers,
+                    m_slots,
+                    m_random_seed,
+                    m_host_user_id,
+                    m_is_single_player,
+                    m_picked_map_tag,
+                    m_game_duration,
+                    m_default_difficulty,
+                    m_default_ai_build,
+                },
+            ))
+        }
+        #[tracing::instrument(name="75689::bit_packed::ReplaySInitData::Parse", level = "debug", skip(input), fields(peek = peek_bits(input)))]
+        pub fn parse(input: (&[u8], usize)) -> S2ProtoResult<(&[u8], usize), Self> {
+            let (tail, m_user_initial_data) =
+                GameSLobbySyncState::parse_m_user_initial_data(input)?;
+            let (tail, m_game_description) = GameSLobbySyncState::parse_m_game_description(tail)?;
+            let (tail, m_lobby_state) = Self::parse_m_lobby_state(tail)?;
+            Ok((
+                tail,
+                Self {
+                    m_sync_lobby_state: GameSLobbySyncState {
+                        m_user_initial_data,
+                        m_game_description,
+                        m_lobby_state,
+                    },
+                },
+            ))
+        }
+
+        /// Read the Init Data
+        #[tracing::instrument(level = "debug", skip(mpq, file_contents))]
+        pub fn read_init_data(
+            mpq: &MPQ,
+            file_contents: &[u8],
+        ) -> Result<InitData, S2ProtocolError> {
+            let init_data_sector = crate::read_mpq_sector(mpq, "replay.initData", file_contents)?;
+            let (_, source) = Self::parse((&init_data_sector, 0usize))?;
+            protocol87702::ReplaySInitData {
+                m_sync_lobby_state: source.m_sync_lobby_state,
+            }
+            .try_into()
+        }
+    }
 }
-- 
2.43.0


From 4fe78fc9197f8756aabf8b701c1bbfe1d56626c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:52 +0000
Subject: [PATCH 33/36] fix: map bounds below zero are an error, not an
 overflow

---
 src/cache_handles/map_info.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/cache_handles/map_info.rs b/src/cache_handles/map_info.rs
index 6983f24..faecf53 100644
--- a/src/cache_handles/map_info.rs
+++ b/src/cache_handles/map_info.rs
@@ -152,6 +152,24 @@ impl MapInfo {
             )));
         }
 
+        if cell_left < 0 {
+            return Err(S2ProtocolError::Map(MapError::InvalidCoordinateBounds(
+                "Zero".to_string(),
+                0,
+                "MapInfoCellLeft".to_string(),
+                cell_left,
+            )));
+        }
+
+        if cell_bottom < 0 {
+            return Err(S2ProtocolError::Map(MapError::InvalidCoordinateBounds(
+                "Zero".to_string(),
+                0,
+                "MapInfoCellBottom".to_string(),
+                cell_bottom,
+            )));
+        }
+
         if cell_right > cell_width {
             return Err(S2ProtocolError::Map(MapError::InvalidCoordinateBounds(
                 "MapInfoCellRight".to_string(),
-- 
2.43.0


From 07c020a1721e4407dbdd06d96fb11fe6e643578d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:52 +0000
Subject: [PATCH 34/36] fix: a damaged map archive is an error, not a panic

---
 src/cache_handles/document_header.rs | 3 +--
 src/cache_handles/map_info.rs        | 2 +-
 src/cache_handles/t3_height_map.rs   | 3 +--
 3 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/cache_handles/document_header.rs b/src/cache_handles/document_header.rs
index 355ce6a..0c76eb6 100644
--- a/src/cache_handles/document_header.rs
+++ b/src/cache_handles/document_header.rs
@@ -62,8 +62,7 @@ impl DocumentHeader {
 
     #[instrument(skip(mpq, file_contents))]
     pub fn from_mpq(mpq: &MPQ, file_contents: &[u8]) -> Result<Self, S2ProtocolError> {
-        let (_, document_header_sector) =
-            mpq.read_mpq_file_sector("DocumentHeader", false, file_contents)?;
+        let document_header_sector = crate::read_mpq_sector(mpq, "DocumentHeader", file_contents)?;
         let (_, document_header) = Self::parse(&document_header_sector)?;
         Ok(document_header)
     }
diff --git a/src/cache_handles/map_info.rs b/src/cache_handles/map_info.rs
index faecf53..0e9bc83 100644
--- a/src/cache_handles/map_info.rs
+++ b/src/cache_handles/map_info.rs
@@ -41,7 +41,7 @@ pub struct MapInfo {
 impl MapInfo {
     #[instrument(skip(mpq, file_contents))]
     pub fn from_mpq(mpq: &MPQ, file_contents: &[u8]) -> Result<Self, S2ProtocolError> {
-        let (_, map_info_sector) = mpq.read_mpq_file_sector("MapInfo", false, file_contents)?;
+        let map_info_sector = read_mpq_sector(mpq, "MapInfo", file_contents)?;
         let (_, map_info) = Self::parse(&map_info_sector)?;
         Ok(map_info)
     }
diff --git a/src/cache_handles/t3_height_map.rs b/src/cache_handles/t3_height_map.rs
index 6dee82e..9664769 100644
--- a/src/cache_handles/t3_height_map.rs
+++ b/src/cache_handles/t3_height_map.rs
@@ -23,8 +23,7 @@ impl T3HeightMap {
         file_contents: &[u8],
         map_info: &MapInfo,
     ) -> Result<Self, S2ProtocolError> {
-        let (_, t3_height_sector) =
-            mpq.read_mpq_file_sector("t3HeightMap", false, file_contents)?;
+        let t3_height_sector = crate::read_mpq_sector(mpq, "t3HeightMap", file_contents)?;
         let (_, t3_height_map) = Self::parse(&t3_height_sector, map_info)?;
         Ok(t3_height_map)
     }
-- 
2.43.0


From 71fcb75e1359fddbd30398340ff7a433678731af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:50 +0000
Subject: [PATCH 35/36] fix: a missing or damaged protocol description is an
 error, not a panic

---
 src/generator/proto_morphist.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/generator/proto_morphist.rs b/src/generator/proto_morphist.rs
index 88e15be..3e04282 100644
--- a/src/generator/proto_morphist.rs
+++ b/src/generator/proto_morphist.rs
@@ -36,19 +36,19 @@ impl ProtoMorphist {
         let mut proto_num: String = format!("{:?}", json_proto_path.file_name().unwrap());
         proto_num.retain(|c| c.is_ascii_digit());
         let proto_num = proto_num.parse().unwrap();
-        let output = File::create(output_name)?;
-        let mut json_definition_file = File::open(&json_proto_path).unwrap();
+        let mut json_definition_file = File::open(&json_proto_path)?;
         let mut json_content_buffer: Vec<u8> = vec![];
         // read the whole file
-        json_definition_file
-            .read_to_end(&mut json_content_buffer)
-            .unwrap();
+        json_definition_file.read_to_end(&mut json_content_buffer)?;
+        let proto_json = serde_json::from_slice(&json_content_buffer)?;
+        // The output is only touched once there is a definition to generate it from.
+        let output = File::create(output_name)?;
 
         Ok(Self {
             json_proto_path,
             proto_num,
             output,
-            proto_json: serde_json::from_slice(&json_content_buffer).unwrap(),
+            proto_json,
             enum_tags: HashMap::new(),
         })
     }
-- 
2.43.0


From e59cf5c5547a265b1f4e54d1ce46128465dcfab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:28 +0000
Subject: [PATCH 36/36] fix: the set-up data of a player is that of the
 player's user, not of the slot index

---
 src/details.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/details.rs b/src/details.rs
index 8fc51da..3e90ca2 100644
--- a/src/details.rs
+++ b/src/details.rs
@@ -205,6 +205,11 @@ impl TryFrom<&InitData> for Vec<PlayerLobbyDetails> {
                     }
                 }
                 let slot_idx = slot_idx?;
+                // The initial data of the users is indexed by user id, computers have none.
+                let user_initial_data = init.sync_lobby_state.lobby_state.slots[slot_idx]
+                    .user_id
+                    .and_then(|user_id| usize::try_from(user_id).ok())
+                    .and_then(|user_id| init.sync_lobby_state.user_initial_data.get(user_id));
                 Some(PlayerLobbyDetails {
                     title: details.title.clone(),
                     game_description: init.sync_lobby_state.game_description.clone(),
@@ -212,15 +217,9 @@ impl TryFrom<&InitData> for Vec<PlayerLobbyDetails> {
                     player_details: player.clone(),
                     time_utc: details.time_utc,
                     time_local_offset: details.time_local_offset,
-                    user_init_data_name: init
-                        .sync_lobby_state
-                        .user_initial_data
-                        .get(slot_idx)
+                    user_init_data_name: user_initial_data
                         .map_or("".to_string(), |u| u.name.clone()),
-                    user_init_data_clan_tag: init
-                        .sync_lobby_state
-                        .user_initial_data
-                        .get(slot_idx)
+                    user_init_data_clan_tag: user_initial_data
                         .map_or("".to_string(), |u| u.clan_tag.clone().unwrap_or_default()),
                     tracker_setup_player_id: None,
                     tracker_setup_slot_id: None,
-- 
2.43.0

