From 64eca0de2918370f8e6778d9194cc3884d68b0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:15 +0000
Subject: [PATCH 01/33] fix: reject a message of fewer than three fields
 instead of panicking

---
 src/message.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/message.rs b/src/message.rs
index 3c4059a..778ca31 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -483,7 +483,8 @@ fn parse_group(
 fn parse_header(
     v: &mut VecDeque<StringField>, header: &mut FieldMap, dd: &DataDictionary,
 ) -> SessResult<()> {
-    if v[0].tag() != BeginString::field()
+    if v.len() < 3
+        || v[0].tag() != BeginString::field()
         || v[1].tag() != BodyLength::field()
         || v[2].tag() != MsgType::field()
     {
-- 
2.43.0


From a596fb9c7fe1adae1210ea526954a3dff2a4058f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:15 +0000
Subject: [PATCH 02/33] fix: reject a group count larger than the rest of the
 message before allocating

---
 src/message.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/message.rs b/src/message.rs
index 778ca31..18f88b1 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -426,6 +426,10 @@ fn parse_group(
         Ok(c) => c,
         Err(e) => return Err(SessionRejectError::incorrect_data_format_err()),
     };
+    // every instance takes at least its delimiter, a larger count can not be right
+    if declared_count as usize > v.len() {
+        return Err(SessionRejectError::incorrect_num_in_grp_count());
+    }
     let delimiter = rg.delimiter();
     let group = fmap.set_group(fld.tag(), declared_count, delimiter);
     let mut actual_count: i32 = -1;
-- 
2.43.0


From 023b034b15c5248e546bdfd7610c6d92fd3357d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:15 +0000
Subject: [PATCH 03/33] fix: check the position of a nested group among the
 fields of its instance

---
 src/message.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/message.rs b/src/message.rs
index 18f88b1..e63fb30 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -455,8 +455,14 @@ fn parse_group(
                 // delimiter not found but other tag is encountered
                 return Err(SessionRejectError::required_tag_missing_err());
             }
+            // a nested group has its place in the order too
+            let offset = field_order.iter().position(|f| *f == next_field.tag()).unwrap() as i32;
+            if offset < previous_offset {
+                return Err(SessionRejectError::repeating_grp_out_of_order());
+            }
             let group_instance = &mut group[actual_count as usize];
             parse_group(v, msg_type, &next_field, group_instance, rg_dd)?;
+            previous_offset = offset;
         } else if rg_dd.is_msg_field(msg_type, next_field.tag()) {
             if actual_count < 0 {
                 // means first field not found i.e. delimiter
-- 
2.43.0


From 1f70722bcc2a70022755eb665924dc2f75f571ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:47 +0000
Subject: [PATCH 04/33] fix: reject a tag that appears twice instead of
 dropping the first value

---
 src/message.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/message.rs b/src/message.rs
index e63fb30..debd3d6 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -104,6 +104,14 @@ impl FieldMap {
         self.fields.insert(field.tag(), field);
     }
 
+    fn set_new_field(&mut self, field: StringField) -> SessResult<()> {
+        if self.fields.contains_key(&field.tag()) {
+            return Err(SessionRejectError::tag_appear_more_than_once());
+        }
+        self.set_field(field);
+        Ok(())
+    }
+
     pub fn get_field<T: FromStr>(&self, tag: u32) -> Result<T, String> {
         if let Some(field) = self.fields.get(&tag) {
             return field.value.parse::<T>().map_err(|_| "could not parse".to_string());
@@ -419,6 +427,9 @@ fn parse_group(
     let rg = dd
         .get_msg_group(msg_type, fld.tag())
         .ok_or_else(SessionRejectError::tag_not_defined_for_msg)?;
+    if fmap.fields.contains_key(&fld.tag()) {
+        return Err(SessionRejectError::tag_appear_more_than_once());
+    }
     let rg_dd = rg.data_dictionary();
     let field_order = rg_dd.get_ordered_fields();
     let group_count_tag = fld.tag();
@@ -448,7 +459,7 @@ fn parse_group(
             if rg_dd.is_msg_group(msg_type, next_field.tag()) {
                 parse_group(v, msg_type, &next_field, group_instance, rg_dd)?;
             } else {
-                group_instance.set_field(next_field);
+                group_instance.set_new_field(next_field)?;
             }
         } else if rg_dd.is_msg_group(msg_type, next_field.tag()) {
             if actual_count < 0 {
@@ -475,7 +486,7 @@ fn parse_group(
                 return Err(SessionRejectError::repeating_grp_out_of_order());
             }
             let group_instance = &mut group[actual_count as usize];
-            group_instance.set_field(next_field);
+            group_instance.set_new_field(next_field)?;
             previous_offset = offset;
         } else {
             // its not a group field, push back and come out
@@ -508,7 +519,7 @@ fn parse_header(
         } else if dd.is_msg_group(HEADER_ID, fld.tag()) {
             parse_group(v, HEADER_ID, &fld, header, dd)?;
         } else {
-            header.set_field(fld);
+            header.set_new_field(fld)?;
         }
     }
     Ok(())
@@ -532,7 +543,7 @@ fn parse_body(
         if dd.is_msg_group(msg_type.as_str(), fld.tag()) {
             parse_group(v, &msg_type, &fld, &mut msg.body, dd)?;
         } else {
-            msg.set_field(fld);
+            msg.body.set_new_field(fld)?;
         }
     }
     Ok(())
@@ -545,7 +556,7 @@ fn parse_trailer(
         if !dd.is_trailer_field(fld.tag()) {
             return Err(SessionRejectError::tag_specified_out_of_order());
         }
-        trailer.set_field(fld);
+        trailer.set_new_field(fld)?;
     }
     Ok(())
 }
-- 
2.43.0


From 7ae736279314567aef6b047d35aeaa062f3e620f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:47 +0000
Subject: [PATCH 05/33] fix: setting a group twice replaces it instead of
 adding instances to it

---
 src/message.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/message.rs b/src/message.rs
index debd3d6..caaceed 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -122,13 +122,14 @@ impl FieldMap {
     pub fn set_group(&mut self, tag: Tag, value: u32, rep_grp_delimiter: Tag) -> &mut Group {
         let grp_field = StringField::new(tag, value.to_string().as_str());
         self.set_field(grp_field);
-        let group =
-            self.group.entry(tag).or_insert_with(|| Group::new(rep_grp_delimiter, tag, value));
+        let mut group = Group::new(rep_grp_delimiter, tag, value);
         // create group instances and insert into group
         for i in 0..value {
             group.add_group(FieldMap::new());
         }
-        group
+        // setting a group again replaces it, as the count field is replaced
+        self.group.insert(tag, group);
+        self.group.get_mut(&tag).unwrap()
     }
 
     pub fn get_group(&self, tag: Tag) -> Option<&Group> {
-- 
2.43.0


From 7b012902fee50a223ad7ec6938103ccb077675bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:47 +0000
Subject: [PATCH 06/33] fix: write the delimiter first in the instances of a
 group built by hand

---
 src/message.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/message.rs b/src/message.rs
index caaceed..257ccb3 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -125,7 +125,8 @@ impl FieldMap {
         let mut group = Group::new(rep_grp_delimiter, tag, value);
         // create group instances and insert into group
         for i in 0..value {
-            group.add_group(FieldMap::new());
+            // an instance starts with its delimiter
+            group.add_group(FieldMap::with_field_order(&[rep_grp_delimiter]));
         }
         // setting a group again replaces it, as the count field is replaced
         self.group.insert(tag, group);
-- 
2.43.0


From acc0baa44f2cfe6c64567bbf92cef175978882aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:47 +0000
Subject: [PATCH 07/33] fix: write the trailer in its order, the checksum last

---
 src/message.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/message.rs b/src/message.rs
index 257ccb3..5511a3b 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -268,6 +268,8 @@ impl Message {
     pub fn new() -> Self {
         Self {
             header: FieldMap::with_field_order(&[8, 9, 35]),
+            // SignatureLength, Signature, CheckSum
+            trailer: FieldMap::with_field_order(&[93, 89, 10]),
             ..Default::default()
         }
     }
-- 
2.43.0


From e134a957c3e2c43b6f00987cf4d9118df9346667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:47 +0000
Subject: [PATCH 08/33] fix: read the session of a message whose last field is
 not terminated

---
 src/message.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/message.rs b/src/message.rs
index 5511a3b..28d8910 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -409,7 +409,7 @@ fn extract_field_value<'a>(tag: &str, s: &'a str) -> &'a str {
     if let Some(indx) = s.find(pat.as_str()) {
         let field_start_pos = indx + pat_prefix.len();
         // ignore the first SOH prefix, if any, and start from tag
-        let end_pos = s[field_start_pos..].find(SOH).unwrap();
+        let end_pos = s[field_start_pos..].find(SOH).unwrap_or(s.len() - field_start_pos);
         let start_pos = s[field_start_pos..].find('=').unwrap();
         return &s[field_start_pos + start_pos + 1..field_start_pos + end_pos];
     }
-- 
2.43.0


From b243639a2c360846c42bed8ef4ffcfddf90b9cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:47 +0000
Subject: [PATCH 09/33] fix: reject tags with a sign or leading zeros

---
 src/message.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/message.rs b/src/message.rs
index 28d8910..62c6663 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -350,7 +350,8 @@ impl Message {
             let (tag, value) = match field.split_once('=') {
                 Some((t, v)) => {
                     let parse_result = t.parse::<u32>();
-                    if parse_result.is_err() {
+                    // u32 also takes a sign and leading zeros, a tag has neither
+                    if parse_result.is_err() || t.starts_with(&['+', '0'][..]) {
                         return Err(SessionRejectError::invalid_tag_err());
                     }
                     if v.is_empty() {
-- 
2.43.0


From 96b5218038a22578f8caa01f73c07d3208f3f0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:22 +0000
Subject: [PATCH 10/33] fix: an empty session qualifier is no qualifier, as for
 the other optional parts

---
 src/session/session_id.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/session/session_id.rs b/src/session/session_id.rs
index 281c2ef..f1de6fc 100644
--- a/src/session/session_id.rs
+++ b/src/session/session_id.rs
@@ -163,7 +163,13 @@ impl SessionIdBuilder {
                 }
             }),
 
-            session_qualifier: self.session_qualifier.as_ref().and_then(|opt| opt.clone()),
+            session_qualifier: self.session_qualifier.clone().flatten().and_then(|s| {
+                if s.is_empty() || s == "" {
+                    None
+                } else {
+                    Some(s.to_owned())
+                }
+            }),
             id: String::new(),
         };
         session_id.set_session_id();
-- 
2.43.0


From 7f9438b6e0b52a92a55fb4945eb19576bc30ee61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:24 +0000
Subject: [PATCH 11/33] fix: reject a session before the default section
 instead of dropping it

---
 src/session/session_settings.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/session/session_settings.rs b/src/session/session_settings.rs
index 642b4e5..4810b52 100644
--- a/src/session/session_settings.rs
+++ b/src/session/session_settings.rs
@@ -108,10 +108,10 @@ impl Properties {
                 default_found = true;
                 default_session_id = Some(SessionId::default());
                 setting_map.insert(default_session_id.clone().unwrap(), default_section);
-            } else if line.starts_with('[') && line.ends_with(']') && default_found {
+            } else if line.starts_with('[') && line.ends_with(']') {
                 // some other section in config file
                 if !default_found {
-                    panic!("default section should be first section. not found");
+                    panic!("default section not found, it should be the first section");
                 }
                 let section = parse_table(&mut lines);
                 let defaults = setting_map.get(default_session_id.as_ref().unwrap()).unwrap();
-- 
2.43.0


From 34fe8e15eebd7735c89bfb685e37d92eca978db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:24 +0000
Subject: [PATCH 12/33] fix: reject a session configured twice instead of
 dropping the first

---
 src/session/session_settings.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/session/session_settings.rs b/src/session/session_settings.rs
index 4810b52..3101319 100644
--- a/src/session/session_settings.rs
+++ b/src/session/session_settings.rs
@@ -116,6 +116,9 @@ impl Properties {
                 let section = parse_table(&mut lines);
                 let defaults = setting_map.get(default_session_id.as_ref().unwrap()).unwrap();
                 let session_id = SessionId::from_map(&section, defaults);
+                if setting_map.contains_key(&session_id) {
+                    panic!("duplicate session {} found", session_id);
+                }
                 setting_map.insert(session_id, section);
             }
         }
-- 
2.43.0


From cbd2e9b03224bd3f3dc678bd0940e28f372ed294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:24 +0000
Subject: [PATCH 13/33] fix: reject a malformed section header instead of
 dropping its section

---
 src/session/session_settings.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/session/session_settings.rs b/src/session/session_settings.rs
index 3101319..7462e34 100644
--- a/src/session/session_settings.rs
+++ b/src/session/session_settings.rs
@@ -120,6 +120,8 @@ impl Properties {
                     panic!("duplicate session {} found", session_id);
                 }
                 setting_map.insert(session_id, section);
+            } else if line.starts_with('[') {
+                panic!("malformed section header {}", line);
             }
         }
         if !default_found {
-- 
2.43.0


From 66f610280e451b4f76adfdcd2d68b39cd8ebce79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:24 +0000
Subject: [PATCH 14/33] fix: create a non-stop schedule instead of panicking

---
 src/session/session_schedule.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/session/session_schedule.rs b/src/session/session_schedule.rs
index 18b6b18..8eb28a5 100644
--- a/src/session/session_schedule.rs
+++ b/src/session/session_schedule.rs
@@ -59,9 +59,10 @@ impl SessionSchedule {
         let time_zone: chrono_tz::Tz =
             settings.get_optional_config(session_id, TIMEZONE_SETTING).unwrap_or(chrono_tz::UTC);
         SessionSchedule::new(
-            start_time.unwrap(),
+            // without times the schedule is non stop and they are not used
+            start_time.unwrap_or_default(),
             start_day,
-            end_time.unwrap(),
+            end_time.unwrap_or_default(),
             end_day,
             time_zone,
             is_non_stop,
-- 
2.43.0


From 4522fd599100b4a0465ab141f6d8b8de9ffe0349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:23 +0000
Subject: [PATCH 15/33] fix: a schedule bound that falls into a clock change
 does not panic

---
 src/session/session_schedule.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/session/session_schedule.rs b/src/session/session_schedule.rs
index 8eb28a5..6ae030f 100644
--- a/src/session/session_schedule.rs
+++ b/src/session/session_schedule.rs
@@ -74,10 +74,13 @@ impl SessionSchedule {
             return true;
         }
 
-        let now_datetime = self.time_zone.from_utc_datetime(&Utc::now().naive_utc());
+        // wall clock time of the zone: a start or end time that the zone skips or repeats
+        // on some day is still a point of that day
+        let now_datetime =
+            self.time_zone.from_utc_datetime(&Utc::now().naive_utc()).naive_local();
         // get today's session start and end datetime
-        let today_start_datetime = now_datetime.date().and_time(self.start_time).unwrap();
-        let today_end_datetime = now_datetime.date().and_time(self.end_time).unwrap();
+        let today_start_datetime = now_datetime.date().and_time(self.start_time);
+        let today_end_datetime = now_datetime.date().and_time(self.end_time);
         if self.start_day.is_none() && self.end_day.is_none() {
             // daily session start and end
             // now should be between today's session start and end datetimes
@@ -102,8 +105,7 @@ impl SessionSchedule {
         }
         // weekly start_date is on correct weekday for sesssion
         // update the date with time of self.start_time
-        let weekly_start_datetime =
-            weekly_start_date.and_time(today_start_datetime.time()).unwrap();
+        let weekly_start_datetime = weekly_start_date.and_time(today_start_datetime.time());
 
         while weekly_end_date.weekday() != session_end_weekday {
             // go forward one day
@@ -114,7 +116,7 @@ impl SessionSchedule {
                 return false;
             }
         }
-        let weekly_end_datetime = weekly_end_date.and_time(today_end_datetime.time()).unwrap();
+        let weekly_end_datetime = weekly_end_date.and_time(today_end_datetime.time());
         weekly_start_datetime <= now_datetime && now_datetime <= weekly_end_datetime
     }
 
-- 
2.43.0


From 871b8e458b2b3904e53441edbc9cd2903e427560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:23 +0000
Subject: [PATCH 16/33] fix: a daily session may run over midnight

---
 src/session/session_schedule.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/session/session_schedule.rs b/src/session/session_schedule.rs
index 6ae030f..a5709e5 100644
--- a/src/session/session_schedule.rs
+++ b/src/session/session_schedule.rs
@@ -83,6 +83,10 @@ impl SessionSchedule {
         let today_end_datetime = now_datetime.date().and_time(self.end_time);
         if self.start_day.is_none() && self.end_day.is_none() {
             // daily session start and end
+            if self.start_time > self.end_time {
+                // overnight session, it ends on the next day
+                return today_start_datetime <= now_datetime || now_datetime <= today_end_datetime;
+            }
             // now should be between today's session start and end datetimes
             return today_start_datetime <= now_datetime && now_datetime <= today_end_datetime;
         }
-- 
2.43.0


From 7241c5a9ee3a58e3422147d28054db3fd7ea8b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:23 +0000
Subject: [PATCH 17/33] fix: a weekly session may end on its start day of the
 next week

---
 src/session/session_schedule.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/session/session_schedule.rs b/src/session/session_schedule.rs
index a5709e5..dd6629c 100644
--- a/src/session/session_schedule.rs
+++ b/src/session/session_schedule.rs
@@ -96,6 +96,12 @@ impl SessionSchedule {
         let mut weekly_end_date = today_end_datetime.date();
         let session_start_weekday = self.start_day.unwrap();
         let session_end_weekday = self.end_day.unwrap();
+        if session_start_weekday == session_end_weekday && self.start_time > self.end_time {
+            // the session ends a week later, only the time between end and start is left out
+            return now_datetime.weekday() != session_start_weekday
+                || now_datetime <= today_end_datetime
+                || today_start_datetime <= now_datetime;
+        }
         // using only the date, start going back until you find the date which has
         // same weekday as self.start_day
         while weekly_start_date.weekday() != session_start_weekday {
-- 
2.43.0


From 9157d5aede018d4f42e616f1390ff68ab554cdc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:23 +0000
Subject: [PATCH 18/33] fix: reject a schedule with only one of start and end
 day when it is created

---
 src/session/session_schedule.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/session/session_schedule.rs b/src/session/session_schedule.rs
index dd6629c..00b26c9 100644
--- a/src/session/session_schedule.rs
+++ b/src/session/session_schedule.rs
@@ -55,6 +55,9 @@ impl SessionSchedule {
         if is_non_stop && (start_day.is_some() || end_day.is_some()) {
             panic!("start or end day specified without start time or end time");
         }
+        if start_day.is_some() != end_day.is_some() {
+            panic!("start_day and end_day both are mandatory for a weekly schedule");
+        }
 
         let time_zone: chrono_tz::Tz =
             settings.get_optional_config(session_id, TIMEZONE_SETTING).unwrap_or(chrono_tz::UTC);
-- 
2.43.0


From b9232aab345703727c4ed4e2298914d4e7aef463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:20 +0000
Subject: [PATCH 19/33] fix: report a component that is not defined instead of
 panicking

---
 src/data_dictionary.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/data_dictionary.rs b/src/data_dictionary.rs
index 7aa75a3..1ac9e6d 100644
--- a/src/data_dictionary.rs
+++ b/src/data_dictionary.rs
@@ -289,7 +289,7 @@ impl DataDictionary {
                     // required attrib for processing componend does not depend on outer node
                     let comp_node = components
                         .get(comp_name)
-                        .unwrap_or_else(|| panic!("msg: {}, comp: {}", msg_type, comp_name));
+                        .ok_or_else(|| XmlError::XmlNodeNotFound(comp_name.to_string()))?;
                     group_dd.add_xml_component(
                         msg_type,
                         comp_node,
@@ -353,7 +353,7 @@ impl DataDictionary {
                     let comp_name = get_name_attr(&child)?;
                     let comp_node = components
                         .get(comp_name)
-                        .unwrap_or_else(|| panic!("msgtype {}, component {}", msg_type, comp_name));
+                        .ok_or_else(|| XmlError::XmlNodeNotFound(comp_name.to_string()))?;
                     // "required" attribute of each comp inside comp is treated independently
                     // it does no depend on outer component.
                     self.add_xml_component(msg_type, comp_node, is_comp_required, components, doc)?
@@ -417,7 +417,7 @@ impl DataDictionary {
                     let comp_name = get_name_attr(&child)?;
                     let comp_node = components
                         .get(comp_name)
-                        .unwrap_or_else(|| panic!("msgtype {}, component {}", msg_type, comp_name));
+                        .ok_or_else(|| XmlError::XmlNodeNotFound(comp_name.to_string()))?;
                     self.add_xml_component(msg_type, comp_node, comp_required, components, doc)?;
                 }
                 "group" => {
-- 
2.43.0


From a55f650695f776a8a6e67f18ae01c38d4c9aff40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:21 +0000
Subject: [PATCH 20/33] fix: reject a component that contains itself instead of
 recursing without end

---
 src/data_dictionary.rs | 30 ++++++++++++++++++++++++++++++
 src/quickfix_errors.rs |  2 ++
 2 files changed, 32 insertions(+)

diff --git a/src/data_dictionary.rs b/src/data_dictionary.rs
index 1ac9e6d..f82282e 100644
--- a/src/data_dictionary.rs
+++ b/src/data_dictionary.rs
@@ -450,6 +450,7 @@ impl FromStr for DataDictionary {
 
         let component_node = lookup_node("components", &doc)?;
         let component_map: NodeMap = get_component_nodes_by_name(component_node)?;
+        check_component_cycles(&component_map)?;
 
         let header_node = lookup_node(HEADER_ID, &doc)?;
         dd.add_xml_message(&HEADER_ID, &header_node, &component_map, &doc)?;
@@ -545,6 +546,35 @@ fn get_component_nodes_by_name<'a, 'i>(components: Node<'a, 'i>) -> DResult<Node
     Ok(cmap)
 }
 
+// a component that contains itself, directly or through other components, can not be expanded
+fn check_component_cycles(components: &NodeMap) -> DResult<()> {
+    fn visit<'a>(
+        name: &'a str, components: &'a NodeMap, path: &mut Vec<&'a str>,
+        done: &mut HashSet<&'a str>,
+    ) -> DResult<()> {
+        if path.contains(&name) {
+            return Err(XmlError::RecursiveComponent(name.to_string()));
+        }
+        if done.contains(name) {
+            return Ok(());
+        }
+        if let Some(node) = components.get(name) {
+            path.push(name);
+            for child in node.descendants().filter(|n| n.has_tag_name("component") && n != node) {
+                visit(get_name_attr(&child)?, components, path, done)?;
+            }
+            path.pop();
+        }
+        done.insert(name);
+        Ok(())
+    }
+    let mut done = HashSet::new();
+    for name in components.keys() {
+        visit(name, components, &mut Vec::new(), &mut done)?;
+    }
+    Ok(())
+}
+
 fn lookup_field_num_with_name(field_name: &str, doc: &Document) -> DResult<u32> {
     let fields = lookup_node("fields", doc)?;
     for node in fields.children().filter(|n| n.has_attribute("number") && n.has_attribute("name")) {
diff --git a/src/quickfix_errors.rs b/src/quickfix_errors.rs
index 7605c29..56af7cd 100644
--- a/src/quickfix_errors.rs
+++ b/src/quickfix_errors.rs
@@ -186,6 +186,8 @@ pub enum XmlError {
     DuplicateField(String),
     #[error("Duplicate message {}", .0)]
     DuplicateMessage(String),
+    #[error("Component {} contains itself", .0)]
+    RecursiveComponent(String),
     #[error("Attribute {} not found", .0)]
     AttributeNotFound(String),
     #[error("Unknown xml tag {}", .0)]
-- 
2.43.0


From f02abf2a6ccc0a712f8b9badc13393a06b0d4b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:21 +0000
Subject: [PATCH 21/33] fix: reject a component defined twice

---
 src/data_dictionary.rs | 4 +++-
 src/quickfix_errors.rs | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/data_dictionary.rs b/src/data_dictionary.rs
index f82282e..bea9d54 100644
--- a/src/data_dictionary.rs
+++ b/src/data_dictionary.rs
@@ -541,7 +541,9 @@ fn get_component_nodes_by_name<'a, 'i>(components: Node<'a, 'i>) -> DResult<Node
     let mut cmap: HashMap<String, Node> = HashMap::new();
     for node in components.children().filter(|cnode| cnode.is_element()) {
         let cname = get_name_attr(&node)?;
-        cmap.insert(cname.to_string(), node);
+        if cmap.insert(cname.to_string(), node).is_some() {
+            return Err(XmlError::DuplicateComponent(cname.to_string()));
+        }
     }
     Ok(cmap)
 }
diff --git a/src/quickfix_errors.rs b/src/quickfix_errors.rs
index 56af7cd..fbeafcb 100644
--- a/src/quickfix_errors.rs
+++ b/src/quickfix_errors.rs
@@ -186,6 +186,8 @@ pub enum XmlError {
     DuplicateField(String),
     #[error("Duplicate message {}", .0)]
     DuplicateMessage(String),
+    #[error("Duplicate component {}", .0)]
+    DuplicateComponent(String),
     #[error("Component {} contains itself", .0)]
     RecursiveComponent(String),
     #[error("Attribute {} not found", .0)]
-- 
2.43.0


From dcb73755feffd3b6a0ddb202669a32f1096c5f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:21 +0000
Subject: [PATCH 22/33] fix: a message type must not replace the header or
 trailer

---
 src/data_dictionary.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/data_dictionary.rs b/src/data_dictionary.rs
index bea9d54..69d0510 100644
--- a/src/data_dictionary.rs
+++ b/src/data_dictionary.rs
@@ -201,7 +201,12 @@ impl DataDictionary {
     }
 
     fn set_msg_name_type_cat(&mut self, msg_name: &str, msg_type: &str, cat: &str) -> DResult<()> {
-        if self.category.contains_key(msg_type) || self.types.contains_key(msg_name) {
+        // header and trailer are kept along with the messages, under these types
+        if self.category.contains_key(msg_type)
+            || self.types.contains_key(msg_name)
+            || msg_type == HEADER_ID
+            || msg_type == TRAILER_ID
+        {
             return Err(XmlError::DuplicateMessage(msg_name.to_string()));
         }
         self.types.insert(msg_name.to_string(), msg_type.to_string());
-- 
2.43.0


From f97f7ea1ad2b9c97979b3dd0232fd5c23e1f18ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:38 +0000
Subject: [PATCH 23/33] fix: stop reading a connection that is closed

---
 src/io/acceptor.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/io/acceptor.rs b/src/io/acceptor.rs
index d76be60..bd37c62 100644
--- a/src/io/acceptor.rs
+++ b/src/io/acceptor.rs
@@ -71,7 +71,10 @@ fn start_socket_listener_task(read_half: OwnedReadHalf, to_app: TioSender<String
         let mut buf: Vec<u8> = Vec::with_capacity(1024);
         let mut buf_reader = BufReader::new(read_half);
         loop {
-            read_message(&mut buf_reader, &mut buf).await;
+            if !read_message(&mut buf_reader, &mut buf).await {
+                // connection is closed, an incomplete message is of no use
+                break;
+            }
             let raw_msg = String::from_utf8_lossy(&buf[..buf.len()]).to_string();
             to_app.send(raw_msg).await.unwrap();
             buf.clear();
@@ -93,9 +96,20 @@ fn start_app_listner_task(
     });
 }
 
-async fn read_message<R: AsyncBufReadExt + Unpin>(reader: &mut R, buf: &mut Vec<u8>) {
+// reads one message, returns false if the connection is closed before the end of it
+async fn read_message<R: AsyncBufReadExt + Unpin>(reader: &mut R, buf: &mut Vec<u8>) -> bool {
     loop {
-        let bytes_read = reader.read_until(SOH as u8, buf).await.unwrap();
+        let bytes_read = match reader.read_until(SOH as u8, buf).await {
+            Ok(n) => n,
+            Err(e) => {
+                println!("Error in reading: {:?}", e);
+                return false;
+            }
+        };
+        if bytes_read == 0 || buf.last() != Some(&(SOH as u8)) {
+            // end of stream
+            return false;
+        }
         // println!("bytes received: {:?}", &buf);
         let slice_start = buf.len() - bytes_read;
         let slice_end = buf.len();
@@ -103,8 +117,8 @@ async fn read_message<R: AsyncBufReadExt + Unpin>(reader: &mut R, buf: &mut Vec<
         let byte_slice = &buf[slice_start..slice_end];
         if byte_slice.starts_with(&[49, 48, 61]) {
             // b"10="
-            // checksum tag found, break
-            break;
+            // checksum tag found
+            return true;
         }
     }
 }
-- 
2.43.0


From a6e8f2d08d62444e6a4fff7c4dc6f96e332980f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:38 +0000
Subject: [PATCH 24/33] fix: a message of an unknown session must not stop the
 receiver

---
 src/network.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/network.rs b/src/network.rs
index a57f93f..4816c6f 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -250,10 +250,13 @@ fn start_receiver_task<A: Application + Send + Sync + 'static>(
             println!("received: {}", s);
             let session_id: SessionId = Message::get_reverse_session_id(&s);
 
-            let dd = sessions
-                .get_session(&session_id)
-                .map(|sess| Arc::clone(sess.data_dictionary()))
-                .unwrap();
+            let dd = match sessions.get_session(&session_id) {
+                Some(sess) => Arc::clone(sess.data_dictionary()),
+                None => {
+                    println!("no session {}", session_id);
+                    continue;
+                }
+            };
             if let Ok(message) = Message::from_str(&s, &dd) {
                 println!("msg parsed");
                 if let Ok(_) = Session::verify(&message, &sessions) {
-- 
2.43.0


From 7e8c4b29719b46ebad30747a2ad3abf1e340d1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:38 +0000
Subject: [PATCH 25/33] fix: sending to a session that is not connected must
 not panic

---
 src/session/session_and_state.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/session/session_and_state.rs b/src/session/session_and_state.rs
index 4214ebd..e05c495 100644
--- a/src/session/session_and_state.rs
+++ b/src/session/session_and_state.rs
@@ -101,7 +101,9 @@ impl Session {
         // let synchronous_send = true;
         let sess_ref = sessions.get_session(session_id).unwrap();
         let responder = sess_ref.responder.as_ref().unwrap().clone();
-        responder.send(msg.to_string()).unwrap();
+        if responder.send(msg.to_string()).is_err() {
+            println!("session {} is not connected", session_id);
+        }
         // if !synchronous_send {
         //     tokio::spawn(async move {
         //         responder.send(msg.to_string()).await.unwrap();
-- 
2.43.0


From 62a1928cf3ef077bfd6e271a612c044c13504fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:38 +0000
Subject: [PATCH 26/33] fix: do not reset connections that wait while another
 one is accepted

---
 src/io/acceptor.rs | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/io/acceptor.rs b/src/io/acceptor.rs
index bd37c62..cd0d2a7 100644
--- a/src/io/acceptor.rs
+++ b/src/io/acceptor.rs
@@ -48,19 +48,23 @@ impl IoAcceptor {
                         continue;
                     }
                 };
-                let (stream, _) = match listener.accept().await {
-                    Ok((stream, remote_addr)) => {
-                        println!("accepted connection from {}", remote_addr);
-                        (stream, remote_addr)
-                    }
-                    Err(e) => {
-                        println!("Error in accepting connection: {:?}", e);
-                        continue;
-                    }
-                };
-                let (owned_read, owned_write) = stream.into_split();
-                start_socket_listener_task(owned_read, socket_to_app_send.clone());
-                start_app_listner_task(owned_write, app_to_socket_send.subscribe());
+                // the same listener accepts all the connections, dropping it would reset those
+                // which are waiting to be accepted
+                loop {
+                    let (stream, _) = match listener.accept().await {
+                        Ok((stream, remote_addr)) => {
+                            println!("accepted connection from {}", remote_addr);
+                            (stream, remote_addr)
+                        }
+                        Err(e) => {
+                            println!("Error in accepting connection: {:?}", e);
+                            break;
+                        }
+                    };
+                    let (owned_read, owned_write) = stream.into_split();
+                    start_socket_listener_task(owned_read, socket_to_app_send.clone());
+                    start_app_listner_task(owned_write, app_to_socket_send.subscribe());
+                }
             }
         });
     }
-- 
2.43.0


From 1fcf7ff5004b2880513463c8faf4eb37d71130ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:38 +0000
Subject: [PATCH 27/33] fix: wait before binding again instead of keeping the
 thread busy

---
 src/io/acceptor.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/io/acceptor.rs b/src/io/acceptor.rs
index cd0d2a7..9d714ce 100644
--- a/src/io/acceptor.rs
+++ b/src/io/acceptor.rs
@@ -6,6 +6,10 @@ use tokio::io::{AsyncBufReadExt, AsyncWriteExt, BufReader};
 use tokio::net::tcp::{OwnedReadHalf, OwnedWriteHalf};
 use tokio::net::TcpListener;
 use tokio::sync::mpsc::{channel as tio_channel, Receiver as TioReceiver, Sender as TioSender};
+use tokio::time::{sleep, Duration};
+
+// wait before trying again to bind or accept
+const RETRY_INTERVAL: Duration = Duration::from_millis(500);
 
 #[derive(Debug)]
 pub struct IoAcceptor {
@@ -45,6 +49,7 @@ impl IoAcceptor {
                     }
                     Err(e) => {
                         println!("Error in bind: {:?}", e);
+                        sleep(RETRY_INTERVAL).await;
                         continue;
                     }
                 };
@@ -58,6 +63,7 @@ impl IoAcceptor {
                         }
                         Err(e) => {
                             println!("Error in accepting connection: {:?}", e);
+                            sleep(RETRY_INTERVAL).await;
                             break;
                         }
                     };
-- 
2.43.0


From d7d87b53ba0b059373adc8bc155ad42803432de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:38 +0000
Subject: [PATCH 28/33] fix: a connection that lags behind must not fall silent

---
 src/io/acceptor.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/io/acceptor.rs b/src/io/acceptor.rs
index 9d714ce..0f6bb8c 100644
--- a/src/io/acceptor.rs
+++ b/src/io/acceptor.rs
@@ -5,6 +5,7 @@ use std::sync::Arc;
 use tokio::io::{AsyncBufReadExt, AsyncWriteExt, BufReader};
 use tokio::net::tcp::{OwnedReadHalf, OwnedWriteHalf};
 use tokio::net::TcpListener;
+use tokio::sync::broadcast::error::RecvError;
 use tokio::sync::mpsc::{channel as tio_channel, Receiver as TioReceiver, Sender as TioSender};
 use tokio::time::{sleep, Duration};
 
@@ -98,7 +99,16 @@ fn start_app_listner_task(
     tokio::spawn(async move {
         println!("starting internal msg receiv");
         // if there is message to be sent out to remote socket then read and send
-        while let Ok(msg) = from_app.recv().await {
+        loop {
+            let msg = match from_app.recv().await {
+                Ok(msg) => msg,
+                Err(RecvError::Lagged(n)) => {
+                    // the oldest messages are lost but not the connection
+                    println!("{} messages not sent", n);
+                    continue;
+                }
+                Err(RecvError::Closed) => break,
+            };
             println!("sending {}", &msg);
             let _res = write_half.write_all(msg.as_bytes()).await.unwrap();
             println!("sent {}", &msg);
-- 
2.43.0


From 9e4986b76c964ac86899d74c777656fdca405f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:15 +0000
Subject: [PATCH 29/33] fix: subscribe a connection to its messages before it
 is read

---
 src/io/acceptor.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/io/acceptor.rs b/src/io/acceptor.rs
index 0f6bb8c..7b0c2b2 100644
--- a/src/io/acceptor.rs
+++ b/src/io/acceptor.rs
@@ -69,8 +69,9 @@ impl IoAcceptor {
                         }
                     };
                     let (owned_read, owned_write) = stream.into_split();
-                    start_socket_listener_task(owned_read, socket_to_app_send.clone());
+                    // subscribe first, the answer to a message may come as soon as it is read
                     start_app_listner_task(owned_write, app_to_socket_send.subscribe());
+                    start_socket_listener_task(owned_read, socket_to_app_send.clone());
                 }
             }
         });
-- 
2.43.0


From e479d6a2ebe0acb78b1eb98b53290da4edaf0d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:38 +0000
Subject: [PATCH 30/33] fix: end a connection that can not be written to
 without a panic

---
 src/io/acceptor.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/io/acceptor.rs b/src/io/acceptor.rs
index 7b0c2b2..7f9d77a 100644
--- a/src/io/acceptor.rs
+++ b/src/io/acceptor.rs
@@ -88,7 +88,10 @@ fn start_socket_listener_task(read_half: OwnedReadHalf, to_app: TioSender<String
                 break;
             }
             let raw_msg = String::from_utf8_lossy(&buf[..buf.len()]).to_string();
-            to_app.send(raw_msg).await.unwrap();
+            if to_app.send(raw_msg).await.is_err() {
+                // nobody is left to handle it
+                break;
+            }
             buf.clear();
         }
     });
@@ -111,7 +114,10 @@ fn start_app_listner_task(
                 Err(RecvError::Closed) => break,
             };
             println!("sending {}", &msg);
-            let _res = write_half.write_all(msg.as_bytes()).await.unwrap();
+            if let Err(e) = write_half.write_all(msg.as_bytes()).await {
+                println!("Error in writing: {:?}", e);
+                break;
+            }
             println!("sent {}", &msg);
         }
     });
-- 
2.43.0


From 4ace81b631520f11a8da38b14f4c83afbf526385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:59 +0000
Subject: [PATCH 31/33] fix: take the begin string only from its own field

---
 src/message.rs | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/src/message.rs b/src/message.rs
index 62c6663..91f73dc 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -402,19 +402,9 @@ impl Display for Message {
 }
 
 fn extract_field_value<'a>(tag: &str, s: &'a str) -> &'a str {
-    let pat_prefix = match tag {
-        "8" => "",
-        _ => std::str::from_utf8(&[SOH as u8]).unwrap(),
-    };
-    let pat = format!("{}{}=", pat_prefix, tag);
-    if let Some(indx) = s.find(pat.as_str()) {
-        let field_start_pos = indx + pat_prefix.len();
-        // ignore the first SOH prefix, if any, and start from tag
-        let end_pos = s[field_start_pos..].find(SOH).unwrap_or(s.len() - field_start_pos);
-        let start_pos = s[field_start_pos..].find('=').unwrap();
-        return &s[field_start_pos + start_pos + 1..field_start_pos + end_pos];
-    }
-    ""
+    let pat = format!("{}=", tag);
+    // only at the start of a field, the same text may be in a value or at the end of another tag
+    s.split(SOH).find_map(|field| field.strip_prefix(pat.as_str())).unwrap_or("")
 }
 
 fn from_vec(mut v: VecDeque<StringField>, dd: &DataDictionary) -> SessResult<Message> {
-- 
2.43.0


From 13677745621658cff2540e024e069aeae7949d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:54 +0000
Subject: [PATCH 32/33] fix: write the checksum last, whatever else the trailer
 holds

---
 src/message.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/message.rs b/src/message.rs
index 91f73dc..41371a9 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -184,7 +184,9 @@ impl<'a> FieldMapIter<'a> {
                     .iter()
                     .position(|needle| *needle == field.tag())
                     .map_or(usize::MAX, |pos| pos)
-            })
+            });
+            // nothing comes after the checksum, other fields of the trailer neither
+            temp_vec.sort_by_key(|field| field.tag() == CheckSum::field());
         }
         for str_field in temp_vec {
             let tag = str_field.tag();
-- 
2.43.0


From 8b92c8f5619d4f300f98cbe726dc495abe202bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:05 +0000
Subject: [PATCH 33/33] fix: sending to a session that is unknown or has no
 socket panicked

---
 src/session/session_and_state.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/session/session_and_state.rs b/src/session/session_and_state.rs
index e05c495..649540b 100644
--- a/src/session/session_and_state.rs
+++ b/src/session/session_and_state.rs
@@ -99,9 +99,9 @@ impl Session {
     // }
     pub fn sync_send_to_target(session_id: &SessionId, sessions: &SessionMap, msg: Message) {
         // let synchronous_send = true;
-        let sess_ref = sessions.get_session(session_id).unwrap();
-        let responder = sess_ref.responder.as_ref().unwrap().clone();
-        if responder.send(msg.to_string()).is_err() {
+        let responder = sessions.get_session(session_id).and_then(|sess| sess.responder.clone());
+        // nobody to send to: an unknown session, one without a socket or without a connection
+        if responder.map_or(true, |responder| responder.send(msg.to_string()).is_err()) {
             println!("session {} is not connected", session_id);
         }
         // if !synchronous_send {
-- 
2.43.0

