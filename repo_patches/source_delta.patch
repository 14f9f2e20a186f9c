From 5aafc975b4dd30f2612efe3aa6f9b8fa22c07751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:06 +0000
Subject: [PATCH 01/23] fix: read an optional command sequence after its
 presence flag, not from it

---
 src/versions/protocol87702/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/versions/protocol87702/mod.rs b/src/versions/protocol87702/mod.rs
index 71d60bc..3e52daa 100644
--- a/src/versions/protocol87702/mod.rs
+++ b/src/versions/protocol87702/mod.rs
@@ -12478,7 +12478,7 @@ pub mod bit_packed {
         ) -> S2ProtoResult<(&[u8], usize), Option<i64>> {
             let (tail, is_provided): ((&[u8], usize), bool) = parse_bool(input)?;
             let (tail, m_sequence) = if is_provided {
-                let (tail, res) = parse_packed_int(input, 1, 32usize)?;
+                let (tail, res) = parse_packed_int(tail, 1, 32usize)?;
                 (tail, Some(res))
             } else {
                 (tail, None)
-- 
2.43.0


From a7e61efe58c8e16ddb0aac61155f6568e1072ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:06 +0000
Subject: [PATCH 02/23] fix: read the optional deprecated checksum after its
 presence flag, not from it

---
 src/versions/protocol87702/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/versions/protocol87702/mod.rs b/src/versions/protocol87702/mod.rs
index 3e52daa..cc0845a 100644
--- a/src/versions/protocol87702/mod.rs
+++ b/src/versions/protocol87702/mod.rs
@@ -6207,7 +6207,7 @@ pub mod bit_packed {
         ) -> S2ProtoResult<(&[u8], usize), Option<Vec<Uint8>>> {
             let (tail, is_provided): ((&[u8], usize), bool) = parse_bool(input)?;
             let (tail, m_data_deprecated) = if is_provided {
-                let (mut tail, array_length) = take_n_bits_into_i64(input, 5)?;
+                let (mut tail, array_length) = take_n_bits_into_i64(tail, 5)?;
                 let array_length = array_length as usize;
                 tracing::debug!("Reading array length: {array_length}");
                 let max_initial_capacity =
-- 
2.43.0


From 7eeaaba0df452ea5e5d9eeb1bba762291f4e00ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:06 +0000
Subject: [PATCH 03/23] fix: hand back what follows the document header fields
 as the remainder

---
 src/cache_handles/document_header.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cache_handles/document_header.rs b/src/cache_handles/document_header.rs
index 355ce6a..4371124 100644
--- a/src/cache_handles/document_header.rs
+++ b/src/cache_handles/document_header.rs
@@ -176,7 +176,7 @@ impl DocumentHeader {
             new_tail = tail;
         }
 
-        Ok((tail, res))
+        Ok((new_tail, res))
     }
 }
 
-- 
2.43.0


From 559ec1cf38757cf30369a9c7e6a5bd6d645fac6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:47 +0000
Subject: [PATCH 04/23] fix: readers of whole event streams report failures and
 keep the time of skipped events

read_events and read_tracker_events dropped any event that failed to convert and
lost its delta, so that all later events of that reader appeared too early. Only
unsupported kinds are skipped now, and their delta is added to the next event.
---
 src/versions/protocol75689/mod.rs             | 20 ++++++++++++-------
 src/versions/protocol87702/events/game/mod.rs | 20 ++++++++++++-------
 .../protocol87702/events/message/mod.rs       | 20 ++++++++++++-------
 .../protocol87702/events/tracker/mod.rs       |  4 +---
 4 files changed, 40 insertions(+), 24 deletions(-)

diff --git a/src/versions/protocol75689/mod.rs b/src/versions/protocol75689/mod.rs
index 3462b46..d31d2f4 100644
--- a/src/versions/protocol75689/mod.rs
+++ b/src/versions/protocol75689/mod.rs
@@ -1224,6 +1224,7 @@ pub mod bit_packed {
             let (_event_tail, game_events) =
                 mpq.read_mpq_file_sector("replay.game.events", false, file_contents)?;
             let mut res = vec![];
+            let mut skipped_delta = 0i64;
             let mut count = 1usize;
             let mut event_tail: (&[u8], usize) = (&game_events, 0usize);
             loop {
@@ -1234,14 +1235,19 @@ pub mod bit_packed {
                 count += 1;
                 event_tail = new_event_tail;
                 match event.try_into() {
-                    Ok(val) => res.push(GameEvent {
-                        delta,
-                        user_id,
-                        event: val,
-                    }),
-                    Err(err) => {
-                        tracing::debug!("Skipping event: {:?}", err);
+                    Ok(val) => {
+                        res.push(GameEvent {
+                            delta: skipped_delta + delta,
+                            user_id,
+                            event: val,
+                        });
+                        skipped_delta = 0;
                     }
+                    Err(S2ProtocolError::UnsupportedEventType) => {
+                        tracing::debug!("Skipping unsupported event");
+                        skipped_delta += delta;
+                    }
+                    Err(err) => return Err(err),
                 };
                 if event_tail.0.input_len() == 0 {
                     break;
diff --git a/src/versions/protocol87702/events/game/mod.rs b/src/versions/protocol87702/events/game/mod.rs
index 3365b67..2f908f3 100644
--- a/src/versions/protocol87702/events/game/mod.rs
+++ b/src/versions/protocol87702/events/game/mod.rs
@@ -40,6 +40,7 @@ impl GameEEventId {
         let (_event_tail, game_events) =
             mpq.read_mpq_file_sector("replay.game.events", false, file_contents)?;
         let mut res = vec![];
+        let mut skipped_delta = 0i64;
         let mut count = 1usize;
         let mut event_tail: (&[u8], usize) = (&game_events, 0usize);
         loop {
@@ -49,14 +50,19 @@ impl GameEEventId {
             count += 1;
             event_tail = new_event_tail;
             match event.try_into() {
-                Ok(val) => res.push(GameEvent {
-                    delta,
-                    user_id,
-                    event: val,
-                }),
-                Err(err) => {
-                    tracing::debug!("Skipping event: {:?}", err);
+                Ok(val) => {
+                    res.push(GameEvent {
+                        delta: skipped_delta + delta,
+                        user_id,
+                        event: val,
+                    });
+                    skipped_delta = 0;
+                }
+                Err(S2ProtocolError::UnsupportedEventType) => {
+                    tracing::debug!("Skipping unsupported event");
+                    skipped_delta += delta;
                 }
+                Err(err) => return Err(err),
             };
             if event_tail.0.input_len() == 0 {
                 break;
diff --git a/src/versions/protocol87702/events/message/mod.rs b/src/versions/protocol87702/events/message/mod.rs
index 5f2ca75..b2ac530 100644
--- a/src/versions/protocol87702/events/message/mod.rs
+++ b/src/versions/protocol87702/events/message/mod.rs
@@ -34,6 +34,7 @@ impl GameEMessageId {
         let (_event_tail, game_events) =
             mpq.read_mpq_file_sector("replay.message.events", false, file_contents)?;
         let mut res = vec![];
+        let mut skipped_delta = 0i64;
         let mut count = 1usize;
         let mut event_tail: (&[u8], usize) = (&game_events, 0usize);
         loop {
@@ -43,14 +44,19 @@ impl GameEMessageId {
             count += 1;
             event_tail = new_event_tail;
             match event.try_into() {
-                Ok(val) => res.push(MessageEvent {
-                    delta,
-                    user_id,
-                    event: val,
-                }),
-                Err(err) => {
-                    tracing::debug!("Skipping event: {:?}", err);
+                Ok(val) => {
+                    res.push(MessageEvent {
+                        delta: skipped_delta + delta,
+                        user_id,
+                        event: val,
+                    });
+                    skipped_delta = 0;
                 }
+                Err(MessageEventError::UnsupportedEventType) => {
+                    tracing::debug!("Skipping unsupported event");
+                    skipped_delta += delta;
+                }
+                Err(MessageEventError::Utf8Error(err)) => return Err(err.into()),
             };
             if event_tail.0.input_len() == 0 {
                 break;
diff --git a/src/versions/protocol87702/events/tracker/mod.rs b/src/versions/protocol87702/events/tracker/mod.rs
index 28b61d1..6ff8626 100644
--- a/src/versions/protocol87702/events/tracker/mod.rs
+++ b/src/versions/protocol87702/events/tracker/mod.rs
@@ -38,9 +38,7 @@ impl ReplayTrackerEEventId {
             event_tail = new_event_tail;
             match event.try_into() {
                 Ok(val) => res.push(TrackerEvent { delta, event: val }),
-                Err(err) => {
-                    tracing::debug!("Skipping event: {:?}", err);
-                }
+                Err(err) => return Err(err),
             };
             if event_tail.input_len() == 0 {
                 break;
-- 
2.43.0


From 8cde5d95cd840ac16c567719541e36acfc8aef18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:06 +0000
Subject: [PATCH 05/23] fix: a missing user data section or a wrong signature
 is an error, not a panic

---
 src/error.rs                    |  3 +++
 src/protocol_version_decoder.rs |  3 ++-
 src/versions/mod.rs             | 31 +++++++++++++++++++++----------
 3 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 52803a9..212323a 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -16,6 +16,9 @@ pub enum S2ProtocolError {
     /// The protocol version is not yet supported.
     #[error("Unsupported Protocol Version: {0}")]
     UnsupportedProtocolVersion(u32),
+    /// The header does not carry the signature of a replay.
+    #[error("Not a StarCraft II replay, the signature does not match")]
+    InvalidSignature,
     /// Unable to parse the byte aligned data types
     #[error("Nom ByteAligned Error {0}")]
     ByteAligned(String),
diff --git a/src/protocol_version_decoder.rs b/src/protocol_version_decoder.rs
index 468c96c..08d825f 100644
--- a/src/protocol_version_decoder.rs
+++ b/src/protocol_version_decoder.rs
@@ -50,9 +50,10 @@ impl ProtocolHeader {
 
 /// Read the protocol header, this can be read with any protocol
 pub fn read_protocol_header(mpq: &MPQ) -> S2ProtoResult<&[u8], ReplaySHeader> {
+    // The protocol version is in the user data, without it this is not a replay.
     let user_data = mpq
         .user_data
         .as_ref()
-        .expect("Unable to locate protocol version, missing user data in MPQ");
+        .ok_or_else(|| S2ProtocolError::MissingField("user_data".to_string()))?;
     ReplaySHeader::parse(&user_data.content)
 }
diff --git a/src/versions/mod.rs b/src/versions/mod.rs
index f4a0c0c..9a7166a 100644
--- a/src/versions/mod.rs
+++ b/src/versions/mod.rs
@@ -10,7 +10,18 @@ use nom_mpq::MPQ;
 pub mod protocol75689;
 pub mod protocol87702;
 
-/// Attempts to read the tracker events, panics under unknown protocol
+/// Anything that does not carry the replay signature is not a replay.
+fn check_signature(
+    proto_header: &protocol87702::byte_aligned::ReplaySHeader,
+) -> Result<(), S2ProtocolError> {
+    if proto_header.m_signature == b"StarCraft II replay\x1b11"[..] {
+        Ok(())
+    } else {
+        Err(S2ProtocolError::InvalidSignature)
+    }
+}
+
+/// Attempts to read the tracker events, fails if the signature doesn't match
 #[tracing::instrument(level = "debug", skip(mpq, file_contents, file_name))]
 pub fn read_tracker_events(
     file_name: &str,
@@ -23,7 +34,7 @@ pub fn read_tracker_events(
         proto_header.m_version.m_base_build,
         file_name
     );
-    assert_eq!(proto_header.m_signature, b"StarCraft II replay\x1b11"[..]);
+    check_signature(&proto_header)?;
     match proto_header.m_version.m_base_build {
         0..=75689 => protocol75689::byte_aligned::ReplayTrackerEEventId::read_tracker_events(
             mpq,
@@ -41,7 +52,7 @@ pub fn read_tracker_events(
     }
 }
 
-/// Attempts to read the game events, panics under unknown protocol
+/// Attempts to read the game events, fails if the signature doesn't match
 #[tracing::instrument(level = "debug", skip(mpq, file_contents, file_name))]
 pub fn read_game_events(
     file_name: &str,
@@ -54,7 +65,7 @@ pub fn read_game_events(
         proto_header.m_version.m_base_build,
         file_name
     );
-    assert_eq!(proto_header.m_signature, b"StarCraft II replay\x1b11"[..]);
+    check_signature(&proto_header)?;
     match proto_header.m_version.m_base_build {
         0..=75689 => protocol75689::bit_packed::GameEEventId::read_events(mpq, file_contents),
         83830 | 84643 | 88500 | 86383 | 87702 | 89634 | 89165 | 89720 | 90136 | 90779 | 90870
@@ -63,7 +74,7 @@ pub fn read_game_events(
     }
 }
 
-/// Attempts to read the message events, panics under unknown protocol
+/// Attempts to read the message events, fails if the signature doesn't match
 #[tracing::instrument(level = "debug", skip(mpq, file_contents, file_name))]
 pub fn read_message_events(
     file_name: &str,
@@ -76,7 +87,7 @@ pub fn read_message_events(
         proto_header.m_version.m_base_build,
         file_name
     );
-    assert_eq!(proto_header.m_signature, b"StarCraft II replay\x1b11"[..]);
+    check_signature(&proto_header)?;
     match proto_header.m_version.m_base_build {
         0..=75689 => protocol75689::bit_packed::GameEMessageId::read_events(mpq, file_contents),
         83830 | 84643 | 88500 | 86383 | 87702 | 89634 | 89165 | 89720 | 90136 | 90779 | 90870
@@ -85,7 +96,7 @@ pub fn read_message_events(
     }
 }
 
-/// Attempts to read the details, panics under unknown protocol
+/// Attempts to read the details, fails if the signature doesn't match
 #[tracing::instrument(level = "debug", skip(mpq, file_contents, file_name))]
 pub fn read_details(
     file_name: &str,
@@ -98,7 +109,7 @@ pub fn read_details(
         proto_header.m_version.m_base_build,
         file_name
     );
-    assert_eq!(proto_header.m_signature, b"StarCraft II replay\x1b11"[..]);
+    check_signature(&proto_header)?;
     match proto_header.m_version.m_base_build {
         0..=75689 => protocol75689::byte_aligned::GameSDetails::read_details(mpq, file_contents),
         83830 | 84643 | 88500 | 86383 | 87702 | 89634 | 89165 | 89720 | 90136 | 90779 | 90870
@@ -107,7 +118,7 @@ pub fn read_details(
     }
 }
 
-/// Attempts to read the initData, panics if signature doesn't match
+/// Attempts to read the initData, fails if the signature doesn't match
 #[tracing::instrument(level = "debug", skip(mpq, file_contents, file_name))]
 pub fn read_init_data(
     file_name: &str,
@@ -120,7 +131,7 @@ pub fn read_init_data(
         proto_header.m_version.m_base_build,
         file_name
     );
-    assert_eq!(proto_header.m_signature, b"StarCraft II replay\x1b11"[..]);
+    check_signature(&proto_header)?;
     let res = match proto_header.m_version.m_base_build {
         0..=75689 => protocol75689::bit_packed::ReplaySInitData::read_init_data(mpq, file_contents),
         83830 | 84643 | 88500 | 86383 | 87702 | 89634 | 89165 | 89720 | 90136 | 90779 | 90870
-- 
2.43.0


From ccd9ea71aa81de424a360bc8697a95a40722e952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:38 +0000
Subject: [PATCH 06/23] fix: a short cache handle does not panic the player row

---
 src/details.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/details.rs b/src/details.rs
index 595e68f..7100462 100644
--- a/src/details.rs
+++ b/src/details.rs
@@ -81,17 +81,23 @@ impl From<PlayerLobbyDetails> for PlayerLobbyDetailsFlatRow {
         let mut cache_handle_region = None;
         let mut cache_handle_extension = None;
         for cache_handle in &source.cache_handles {
-            // 8 characters for the extension
-            let (ext_str, remaining) = cache_handle.split_at(8);
+            // 8 characters for the extension, then the "0000" delimiter, 4 characters for the region,
+            // and the rest is the hash.
+            let (Some(ext_str), Some(region_str), Some(cache_handle_hash)) = (
+                cache_handle.get(..8),
+                cache_handle.get(12..16),
+                cache_handle.get(16..),
+            ) else {
+                // Too short to have these parts, it is reported as it is.
+                cache_handles.push_str(cache_handle);
+                cache_handles.push(',');
+                continue;
+            };
             let extension = make_string_from_hex_chars(ext_str);
             if cache_handle_extension.is_none() {
                 cache_handle_extension = Some(extension.to_string());
             }
-            // skip the "0000" delimiter.
-            let remaining = &remaining[4..];
 
-            // 4 characters for the region
-            let (region_str, cache_handle_hash) = remaining.split_at(4);
             let region = make_string_from_hex_chars(region_str);
 
             if cache_handle_region.is_none() {
@@ -152,8 +158,7 @@ fn make_string_from_hex_chars(input_str: &str) -> String {
 /// i.e. String("73") -> u8 value 115 (ascii) -> char 's'
 fn parse_hex_chars_to_u8_char(chars: &[char]) -> char {
     let string_chunk: String = chars.iter().collect();
-    let byte_chunk = u8::from_str_radix(&string_chunk, 16).unwrap();
-    byte_chunk as char
+    u8::from_str_radix(&string_chunk, 16).map_or(char::REPLACEMENT_CHARACTER, char::from)
 }
 
 /// A joined version of the PlayerLobbySlot contained within the InitData sector and the Details
-- 
2.43.0


From 4c1727b7973936c35d81e6019638c1c276317635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:38 +0000
Subject: [PATCH 07/23] fix: selections and updates of unknown control groups
 are ignored instead of panicking

---
 src/game_events/state.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/game_events/state.rs b/src/game_events/state.rs
index ff10261..105915b 100644
--- a/src/game_events/state.rs
+++ b/src/game_events/state.rs
@@ -284,6 +284,13 @@ pub fn handle_selection_delta(
     user_id: i64,
     selection_delta: GameSSelectionDeltaEvent,
 ) -> (ReplayGameEvent, UnitChangeHint) {
+    if selection_delta.m_control_group_id as usize > ACTIVE_UNITS_GROUP_IDX {
+        tracing::warn!("Ignoring selection of an unknown group: {selection_delta:?}");
+        return (
+            ReplayGameEvent::SelectionDelta(selection_delta),
+            UnitChangeHint::None,
+        );
+    }
     let mut updated_units = vec![];
     if selection_delta.m_control_group_id == ACTIVE_UNITS_GROUP_IDX as u8 {
         let mut unmarked_units =
@@ -324,6 +331,13 @@ pub fn update_control_group(
     user_id: i64,
     ctrl_group_evt: GameSControlGroupUpdateEvent,
 ) -> (ReplayGameEvent, UnitChangeHint) {
+    if ctrl_group_evt.m_control_group_index as usize > ACTIVE_UNITS_GROUP_IDX {
+        tracing::warn!("Ignoring update of an unknown group: {ctrl_group_evt:?}");
+        return (
+            ReplayGameEvent::ControlGroupUpdate(ctrl_group_evt),
+            UnitChangeHint::None,
+        );
+    }
     let mut updated_units = match unmark_previously_selected_units(sc2_state, game_loop, user_id) {
         UnitChangeHint::Selection(units) => units,
         _ => unreachable!(),
-- 
2.43.0


From c3099f5a8f166390ed7406a7652505bfab30a700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:01 +0000
Subject: [PATCH 08/23] fix: map files with playable bounds below zero are
 rejected

---
 src/cache_handles/map_info.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/cache_handles/map_info.rs b/src/cache_handles/map_info.rs
index 6983f24..6bef89c 100644
--- a/src/cache_handles/map_info.rs
+++ b/src/cache_handles/map_info.rs
@@ -135,6 +135,24 @@ impl MapInfo {
             dbg_peek_hex(take(4usize), "read map cell_top, 4 bytes")(tail)?;
         let (_, cell_top) = i32(nom::number::Endianness::Little)(cell_top_bytes)?;
 
+        // With these not below zero, the checks that follow keep every bound within the map size.
+        if cell_left < 0 {
+            return Err(S2ProtocolError::Map(MapError::InvalidCoordinateBounds(
+                "MapInfoOrigin".to_string(),
+                0,
+                "MapInfoCellLeft".to_string(),
+                cell_left,
+            )));
+        }
+        if cell_bottom < 0 {
+            return Err(S2ProtocolError::Map(MapError::InvalidCoordinateBounds(
+                "MapInfoOrigin".to_string(),
+                0,
+                "MapInfoCellBottom".to_string(),
+                cell_bottom,
+            )));
+        }
+
         if cell_left >= cell_right {
             return Err(S2ProtocolError::Map(MapError::InvalidCoordinateBounds(
                 "MapInfoCellLeft".to_string(),
-- 
2.43.0


From 8c19b24f7734b5c4d8bdad25b666aa35020dcd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:09 +0000
Subject: [PATCH 09/23] fix: dead units leave the control groups, which hold
 tags and not tag indexes

---
 src/tracker_events/state.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tracker_events/state.rs b/src/tracker_events/state.rs
index 6a67b54..f4ea1ef 100644
--- a/src/tracker_events/state.rs
+++ b/src/tracker_events/state.rs
@@ -249,7 +249,9 @@ pub fn handle_unit_died(
     // Clean up the unit from previous groups where it was selected.
     for (_idx, state) in sc2_state.user_state.iter_mut() {
         for group_idx in 0..11 {
-            state.control_groups[group_idx].retain(|&x| x != unit_dead.unit_tag_index);
+            // The groups hold full tags, the event carries the tag index.
+            state.control_groups[group_idx]
+                .retain(|&x| unit_tag_index(x as i64) != unit_dead.unit_tag_index);
         }
     }
     match sc2_state.units.remove(&unit_dead.unit_tag_index) {
-- 
2.43.0


From 0c72593964a16551c29bd2177ab2281b8c9a318c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:09 +0000
Subject: [PATCH 10/23] fix: the target unit of a command is looked up by its
 tag index

---
 src/game_events/state.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/game_events/state.rs b/src/game_events/state.rs
index 105915b..3935ac2 100644
--- a/src/game_events/state.rs
+++ b/src/game_events/state.rs
@@ -63,7 +63,10 @@ pub fn handle_cmd(
     // For now this is not implemented and a unit maybe have a target unit, even tho the active
     // command is Stop.
     let target = if let GameSCmdData::TargetUnit(tu) = &cmd.m_data {
-        sc2_state.units.get(&tu.m_tag).cloned()
+        sc2_state
+            .units
+            .get(&unit_tag_index(tu.m_tag.into()))
+            .cloned()
     } else {
         None
     };
-- 
2.43.0


From 13856ffa5d1cc2abe4d5949d5372f5d8944149b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:09 +0000
Subject: [PATCH 11/23] fix: the new target unit is never looked up by its full
 tag

---
 src/game_events/state.rs | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/src/game_events/state.rs b/src/game_events/state.rs
index 3935ac2..0769b8a 100644
--- a/src/game_events/state.rs
+++ b/src/game_events/state.rs
@@ -163,25 +163,20 @@ pub fn handle_update_target_unit(
     target_unit: GameSCmdUpdateTargetUnitEvent,
 ) -> (ReplayGameEvent, UnitChangeHint) {
     // The TargetPoint does not contain the ability id or command index.
-    let registered_target_unit = match sc2_state.units.get(&target_unit.m_target.m_tag) {
+    let registered_target_unit = match sc2_state
+        .units
+        .get(&unit_tag_index(target_unit.m_target.m_tag.into()))
+    {
         Some(x) => x.clone(),
         None => {
-            match sc2_state
-                .units
-                .get(&unit_tag_index(target_unit.m_target.m_tag.into()))
-            {
-                Some(x) => x.clone(),
-                None => {
-                    tracing::warn!(
-                        "Unit not found for target unit: {}",
-                        target_unit.m_target.m_tag
-                    );
-                    return (
-                        ReplayGameEvent::CmdUpdateTargetUnit(target_unit),
-                        UnitChangeHint::None,
-                    );
-                }
-            }
+            tracing::warn!(
+                "Unit not found for target unit: {}",
+                target_unit.m_target.m_tag
+            );
+            return (
+                ReplayGameEvent::CmdUpdateTargetUnit(target_unit),
+                UnitChangeHint::None,
+            );
         }
     };
     let mut user_selected_unit_ids: Vec<u32> = vec![];
-- 
2.43.0


From 0aea2b2a1f21c0c545b657ad6bfa6adaf22ee274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:09 +0000
Subject: [PATCH 12/23] fix: tracker events come before the game events of the
 same loop, as documented

---
 src/state/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/state/mod.rs b/src/state/mod.rs
index 122680e..b853e4d 100644
--- a/src/state/mod.rs
+++ b/src/state/mod.rs
@@ -692,9 +692,10 @@ impl Iterator for SC2EventIterator {
             let next_game_event_loop = self.get_game_loop();
             let event: SC2EventType = match (next_tracker_event_loop, next_game_event_loop) {
                 (Some(next_tracker_event_loop), Some(next_game_event_loop)) => {
-                    // Both events are populated, compare the loop and return the lowest one
+                    // Both events are populated, compare the loop and return the lowest one,
+                    // tracker events take priority.
                     if next_tracker_event_loop
-                        < (next_game_event_loop as f32 * TRACKER_SPEED_RATIO) as i64
+                        <= (next_game_event_loop as f32 * TRACKER_SPEED_RATIO) as i64
                     {
                         self.next_tracker_event.take().unwrap()
                     } else {
-- 
2.43.0


From 61804523af70fccf14d012d4747eedbc5e7e994b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:09 +0000
Subject: [PATCH 13/23] fix: game loops beyond the precision of f32 are
 compared exactly

---
 src/state/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/state/mod.rs b/src/state/mod.rs
index b853e4d..5a834ef 100644
--- a/src/state/mod.rs
+++ b/src/state/mod.rs
@@ -695,7 +695,7 @@ impl Iterator for SC2EventIterator {
                     // Both events are populated, compare the loop and return the lowest one,
                     // tracker events take priority.
                     if next_tracker_event_loop
-                        <= (next_game_event_loop as f32 * TRACKER_SPEED_RATIO) as i64
+                        <= (next_game_event_loop as f64 * f64::from(TRACKER_SPEED_RATIO)) as i64
                     {
                         self.next_tracker_event.take().unwrap()
                     } else {
-- 
2.43.0


From 8a056c24578e3a985766b288c5a821188d42a1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:09 +0000
Subject: [PATCH 14/23] fix: an event limit of N shows N events

---
 src/state/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/state/mod.rs b/src/state/mod.rs
index 5a834ef..8a17993 100644
--- a/src/state/mod.rs
+++ b/src/state/mod.rs
@@ -717,10 +717,10 @@ impl Iterator for SC2EventIterator {
                 if iterator_item.shoud_skip_event(&iterator_item.event_type, filters) {
                     continue;
                 }
-                filters.decrease_allowed_event_counter();
                 if filters.is_max_event_reached() {
                     return None;
                 }
+                filters.decrease_allowed_event_counter();
             }
             #[cfg(feature = "tracing_info_level")]
             iterator_item.emit_info_log();
-- 
2.43.0


From 58694eacb59ba81394152a65f496eaa12d6035dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:09 +0000
Subject: [PATCH 15/23] fix: the minimum and maximum loop filters apply to game
 events too

---
 src/state/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/state/mod.rs b/src/state/mod.rs
index 8a17993..03d9b99 100644
--- a/src/state/mod.rs
+++ b/src/state/mod.rs
@@ -601,16 +601,18 @@ impl SC2EventIteratorItem {
     /// Returns true if the event should be skipped based on the filters
     #[tracing::instrument(level = "debug")]
     fn shoud_skip_event(&self, event: &SC2EventType, filters: &SC2ReplayFilters) -> bool {
+        let event_loop = match event {
+            SC2EventType::Tracker { tracker_loop, .. } => *tracker_loop,
+            SC2EventType::Game { game_loop, .. } => *game_loop,
+        };
         if let Some(min_loop) = filters.min_loop
-            && let SC2EventType::Tracker { tracker_loop, .. } = event
-            && *tracker_loop < min_loop
+            && event_loop < min_loop
         {
             tracing::debug!("Skipping event below min_loop {min_loop}");
             return true;
         }
         if let Some(max_loop) = filters.max_loop
-            && let SC2EventType::Tracker { tracker_loop, .. } = event
-            && *tracker_loop > max_loop
+            && event_loop > max_loop
         {
             tracing::debug!("Skipping event above max_loop {max_loop}");
             return true;
-- 
2.43.0


From 7f2dcf51b7ab435e9e3be7f14f7f6f5a2e75c50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:09 +0000
Subject: [PATCH 16/23] fix: stealing units also removes them from the last
 control group

---
 src/game_events/state.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/game_events/state.rs b/src/game_events/state.rs
index 0769b8a..62a8552 100644
--- a/src/game_events/state.rs
+++ b/src/game_events/state.rs
@@ -352,7 +352,7 @@ pub fn update_control_group(
                 // Remove the instances from other groups first
                 let current_selected_units =
                     user_state.control_groups[ACTIVE_UNITS_GROUP_IDX].clone();
-                for group_idx in 0..9 {
+                for group_idx in 0..ACTIVE_UNITS_GROUP_IDX {
                     for unit in &current_selected_units {
                         user_state.control_groups[group_idx].retain(|&x| x != *unit);
                     }
@@ -383,7 +383,7 @@ pub fn update_control_group(
                 // Remove the instances from other groups first
                 let mut current_selected_units =
                     user_state.control_groups[ACTIVE_UNITS_GROUP_IDX].clone();
-                for group_idx in 0..9 {
+                for group_idx in 0..ACTIVE_UNITS_GROUP_IDX {
                     for unit in &current_selected_units {
                         user_state.control_groups[group_idx].retain(|&x| x != *unit);
                     }
-- 
2.43.0


From c4f7820f699d6aaf589594d200abfa10a85ab11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:09 +0000
Subject: [PATCH 17/23] fix: a unit initialised again is reported as it is
 registered

---
 src/tracker_events/state.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tracker_events/state.rs b/src/tracker_events/state.rs
index f4ea1ef..398ba1b 100644
--- a/src/tracker_events/state.rs
+++ b/src/tracker_events/state.rs
@@ -60,6 +60,7 @@ pub fn handle_unit_init(
         unit.pos = Vec3D::new(unit_init.x as f32, unit_init.y as f32, 0.);
         unit.is_init = true;
         unit.name.clone_from(&unit_init.unit_type_name);
+        sc2_unit = unit.clone();
     } else {
         sc2_state
             .units
-- 
2.43.0


From eccc8612cc2db78894b5532447f2f5085a2d7d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:09 +0000
Subject: [PATCH 18/23] fix: a newly born unit remembers the ability that
 created it

---
 src/tracker_events/state.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tracker_events/state.rs b/src/tracker_events/state.rs
index 398ba1b..e31acea 100644
--- a/src/tracker_events/state.rs
+++ b/src/tracker_events/state.rs
@@ -114,6 +114,7 @@ pub fn handle_unit_born(
             pos: Vec3D::new(unit_born.x as f32, unit_born.y as f32, 0.),
             init_game_loop: game_loop,
             tag_index: unit_born.unit_tag_index,
+            creator_ability_name: unit_born.creator_ability_name.clone(),
             player_name: get_player_name_by_tracker_control_player_id(
                 &sc2_state.user_state,
                 unit_born.control_player_id,
-- 
2.43.0


From 98c724838f016f6aca15b7bdb178ad15eb7c823c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:09 +0000
Subject: [PATCH 19/23] fix: a change of target does not leave the name of the
 previous target behind

---
 src/game_events/state.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/game_events/state.rs b/src/game_events/state.rs
index 62a8552..93a0fd8 100644
--- a/src/game_events/state.rs
+++ b/src/game_events/state.rs
@@ -135,6 +135,7 @@ pub fn handle_update_target_point(
                 .set_data_target_point(target_point.m_target.clone());
             // Unset any previous ability vs a target unit.
             registered_unit.cmd.other_unit = None;
+            registered_unit.cmd.other_unit_name = None;
             registered_unit.last_game_loop = game_loop;
             user_selected_units.push(registered_unit.clone());
         } else {
@@ -190,6 +191,7 @@ pub fn handle_update_target_unit(
             registered_unit
                 .cmd
                 .set_data_target_unit(target_unit.m_target.clone().into());
+            registered_unit.cmd.other_unit_name = Some(registered_target_unit.name.clone());
             registered_unit.last_game_loop = game_loop;
             user_selected_units.push(registered_unit.clone());
         } else {
-- 
2.43.0


From 64eab3e326e98419307bbb0b6c169113287538c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:09 +0000
Subject: [PATCH 20/23] fix: a selected unit that changes type keeps its
 selection highlight

---
 src/state/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/state/mod.rs b/src/state/mod.rs
index 03d9b99..04bb1eb 100644
--- a/src/state/mod.rs
+++ b/src/state/mod.rs
@@ -96,7 +96,12 @@ impl SC2Unit {
     pub fn set_unit_props(&mut self, balance_units: &VersionedBalanceUnits) {
         let (radius, color) =
             get_unit_sized_color(&self.name, self.user_id.unwrap_or(0) as i64, balance_units);
-        self.radius = radius;
+        // A selected unit is displayed with twice its radius, see mark_selected_units.
+        self.radius = if self.is_selected {
+            radius * 2.0
+        } else {
+            radius
+        };
         self.color = color;
     }
 }
-- 
2.43.0


From 5e7f5cb043e4357acb1d405292813f8eeaa00a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:09 +0000
Subject: [PATCH 21/23] fix: only a recall changes the selection, the other
 group updates leave it marked

---
 src/game_events/state.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/game_events/state.rs b/src/game_events/state.rs
index 93a0fd8..3893c71 100644
--- a/src/game_events/state.rs
+++ b/src/game_events/state.rs
@@ -338,10 +338,7 @@ pub fn update_control_group(
             UnitChangeHint::None,
         );
     }
-    let mut updated_units = match unmark_previously_selected_units(sc2_state, game_loop, user_id) {
-        UnitChangeHint::Selection(units) => units,
-        _ => unreachable!(),
-    };
+    let mut updated_units = vec![];
     match ctrl_group_evt.m_control_group_update {
         GameEControlGroupUpdate::ESet => {
             if let Some(ref mut user_state) = sc2_state.user_state.get_mut(&user_id) {
@@ -398,6 +395,10 @@ pub fn update_control_group(
             }
         }
         GameEControlGroupUpdate::ERecall => {
+            updated_units = match unmark_previously_selected_units(sc2_state, game_loop, user_id) {
+                UnitChangeHint::Selection(units) => units,
+                _ => unreachable!(),
+            };
             let mut current_selected_units: Vec<u32> = vec![];
             if let Some(ref mut user_state) = sc2_state.user_state.get_mut(&user_id) {
                 user_state.control_groups[ACTIVE_UNITS_GROUP_IDX] = user_state.control_groups
-- 
2.43.0


From a0b54af1856edcc8b3800c3d684c9816351bc222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:09 +0000
Subject: [PATCH 22/23] fix: units that stay selected are reported as selected

---
 src/game_events/state.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/game_events/state.rs b/src/game_events/state.rs
index 3893c71..786552a 100644
--- a/src/game_events/state.rs
+++ b/src/game_events/state.rs
@@ -308,6 +308,8 @@ pub fn handle_selection_delta(
             UnitChangeHint::Selection(units) => units,
             _ => unreachable!(),
         };
+        // Units that stay selected are reported as they are now.
+        updated_units.retain(|unit| !marked_units.contains(unit));
         updated_units.append(&mut marked_units);
     }
     if let Some(ref mut state) = sc2_state.user_state.get_mut(&user_id) {
@@ -411,6 +413,8 @@ pub fn update_control_group(
                     UnitChangeHint::Selection(units) => units,
                     _ => unreachable!(),
                 };
+            // Units that stay selected are reported once, as they are now.
+            updated_units.retain(|unit| !curr_units.contains(unit));
             updated_units.append(&mut curr_units);
         }
     }
-- 
2.43.0


From 46a219534b1344cd06e04f7f853d91dda70dc71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:09 +0000
Subject: [PATCH 23/23] fix: the initial data of a player is that of its user,
 not of its slot

---
 src/details.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/details.rs b/src/details.rs
index 7100462..91dd2a7 100644
--- a/src/details.rs
+++ b/src/details.rs
@@ -206,6 +206,14 @@ impl TryFrom<&InitData> for Vec<PlayerLobbyDetails> {
                     }
                 }
                 let slot_idx = slot_idx?;
+                // The initial data is per user, slots without a user have none.
+                let user_data = init.sync_lobby_state.lobby_state.slots[slot_idx]
+                    .user_id
+                    .and_then(|user_id| {
+                        init.sync_lobby_state
+                            .user_initial_data
+                            .get(user_id as usize)
+                    });
                 Some(PlayerLobbyDetails {
                     title: details.title.clone(),
                     game_description: init.sync_lobby_state.game_description.clone(),
@@ -213,15 +221,8 @@ impl TryFrom<&InitData> for Vec<PlayerLobbyDetails> {
                     player_details: player.clone(),
                     time_utc: details.time_utc,
                     time_local_offset: details.time_local_offset,
-                    user_init_data_name: init
-                        .sync_lobby_state
-                        .user_initial_data
-                        .get(slot_idx)
-                        .map_or("".to_string(), |u| u.name.clone()),
-                    user_init_data_clan_tag: init
-                        .sync_lobby_state
-                        .user_initial_data
-                        .get(slot_idx)
+                    user_init_data_name: user_data.map_or("".to_string(), |u| u.name.clone()),
+                    user_init_data_clan_tag: user_data
                         .map_or("".to_string(), |u| u.clan_tag.clone().unwrap_or_default()),
                     tracker_setup_player_id: None,
                     tracker_setup_slot_id: None,
-- 
2.43.0

