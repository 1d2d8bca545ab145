From ade7a5a1ec6063edcaf3ba5ff342d5ffe1ea19e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:34 +0000
Subject: [PATCH 001/148] fix: date values of timestamps before the epoch

---
 keramics-datetime/src/util.rs | 61 +++++++++--------------------------
 1 file changed, 16 insertions(+), 45 deletions(-)

diff --git a/keramics-datetime/src/util.rs b/keramics-datetime/src/util.rs
index 7aeb6a5..7062165 100644
--- a/keramics-datetime/src/util.rs
+++ b/keramics-datetime/src/util.rs
@@ -102,32 +102,25 @@ fn get_days_in_century(year: i16) -> i32 {
 
 /// Retrieves date values.
 pub fn get_date_values(mut number_of_days: i64, epoch: &Epoch) -> (i16, u8, u8) {
-    let before_epoch: bool = number_of_days < 0;
-
     let mut year: i16 = epoch.year;
     let mut month: u8 = epoch.month;
-    number_of_days += epoch.day_of_month as i64;
-
-    if before_epoch {
-        month -= 1;
 
-        if month <= 0 {
-            month = 12;
-            year -= 1;
-        }
-        number_of_days *= -1;
+    // Days before the epoch are counted from the same date a multiple of 400 years, of 146097 days,
+    // before the epoch, given the calendar repeats every 400 years.
+    if number_of_days < 0 {
+        let number_of_cycles: i64 = (146096 - number_of_days) / 146097;
+        year -= (number_of_cycles * 400) as i16;
+        number_of_days += number_of_cycles * 146097;
     }
+    number_of_days += epoch.day_of_month as i64;
+
     // Align with the start of the year.
     while month > 1 {
         let days_in_month: i64 = get_days_in_month(year, month) as i64;
         if number_of_days < days_in_month {
             break;
         }
-        if before_epoch {
-            month -= 1;
-        } else {
-            month += 1;
-        }
+        month += 1;
         if month > 12 {
             month = 1;
             year += 1;
@@ -135,52 +128,33 @@ pub fn get_date_values(mut number_of_days: i64, epoch: &Epoch) -> (i16, u8, u8)
         number_of_days -= days_in_month;
     }
     // Align with the start of the next century.
-    let remaining_years: usize = (year as usize) % 100;
+    let remaining_years: usize = year.rem_euclid(100) as usize;
     for _ in remaining_years..100 {
         let days_in_year: i64 = get_days_in_year(year) as i64;
         if number_of_days < days_in_year {
             break;
         }
-        if before_epoch {
-            year -= 1;
-        } else {
-            year += 1;
-        }
+        year += 1;
         number_of_days -= days_in_year;
     }
     let mut days_in_century: i64 = get_days_in_century(year) as i64;
     while number_of_days > days_in_century {
-        if before_epoch {
-            year -= 100;
-        } else {
-            year += 100;
-        }
+        year += 100;
         number_of_days -= days_in_century;
 
         days_in_century = get_days_in_century(year) as i64;
     }
     let mut days_in_year: i64 = get_days_in_year(year) as i64;
     while number_of_days > days_in_year {
-        if before_epoch {
-            year -= 1;
-        } else {
-            year += 1;
-        }
+        year += 1;
         number_of_days -= days_in_year;
 
         days_in_year = get_days_in_year(year) as i64;
     }
     let mut days_in_month: i64 = get_days_in_month(year, month) as i64;
     while number_of_days > days_in_month {
-        if before_epoch {
-            month -= 1;
-        } else {
-            month += 1;
-        }
-        if month <= 0 {
-            month = 12;
-            year -= 1;
-        } else if month > 12 {
+        month += 1;
+        if month > 12 {
             month = 1;
             year += 1;
         }
@@ -188,10 +162,7 @@ pub fn get_date_values(mut number_of_days: i64, epoch: &Epoch) -> (i16, u8, u8)
 
         days_in_month = get_days_in_month(year, month) as i64;
     }
-    if before_epoch {
-        let days_in_month: i64 = get_days_in_month(year, month) as i64;
-        number_of_days = days_in_month - number_of_days;
-    } else if number_of_days == 0 {
+    if number_of_days == 0 {
         number_of_days = 31;
         month = 12;
         year -= 1;
-- 
2.43.0


From 30a84c6acc99c7752dedb3126253461699439e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:11 +0000
Subject: [PATCH 002/148] fix: date values of timestamps in year 10000 and
 later

---
 keramics-datetime/src/epoch.rs    |  4 ++--
 keramics-datetime/src/filetime.rs |  2 +-
 keramics-datetime/src/posix.rs    |  4 ++--
 keramics-datetime/src/util.rs     | 18 +++++++++---------
 4 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/keramics-datetime/src/epoch.rs b/keramics-datetime/src/epoch.rs
index 0eb576a..ab24184 100644
--- a/keramics-datetime/src/epoch.rs
+++ b/keramics-datetime/src/epoch.rs
@@ -14,7 +14,7 @@
 /// A fixed date and time used as a reference (epoch).
 pub struct Epoch {
     /// The year.
-    pub year: i16,
+    pub year: i32,
 
     /// The month.
     pub month: u8,
@@ -24,7 +24,7 @@ pub struct Epoch {
 }
 
 impl Epoch {
-    pub fn new(year: i16, month: u8, day_of_month: u8) -> Self {
+    pub fn new(year: i32, month: u8, day_of_month: u8) -> Self {
         Self {
             year: year,
             month: month,
diff --git a/keramics-datetime/src/filetime.rs b/keramics-datetime/src/filetime.rs
index 59bf610..224f4ad 100644
--- a/keramics-datetime/src/filetime.rs
+++ b/keramics-datetime/src/filetime.rs
@@ -57,7 +57,7 @@ impl Filetime {
         let number_of_seconds: u64 = self.timestamp / 10000000;
         let (days, hours, minutes, seconds): (i64, u8, u8, u8) =
             get_time_values(number_of_seconds as i64);
-        let (year, month, day_of_month): (i16, u8, u8) = get_date_values(days, &FILETIME_EPOCH);
+        let (year, month, day_of_month): (i32, u8, u8) = get_date_values(days, &FILETIME_EPOCH);
         format!(
             "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:07}",
             year, month, day_of_month, hours, minutes, seconds, fraction
diff --git a/keramics-datetime/src/posix.rs b/keramics-datetime/src/posix.rs
index a32f7cc..c435661 100644
--- a/keramics-datetime/src/posix.rs
+++ b/keramics-datetime/src/posix.rs
@@ -60,7 +60,7 @@ impl PosixTime32 {
     pub fn to_iso8601_string(&self) -> String {
         let (days, hours, minutes, seconds): (i64, u8, u8, u8) =
             get_time_values(self.timestamp as i64);
-        let (year, month, day_of_month): (i16, u8, u8) = get_date_values(days, &POSIX_EPOCH);
+        let (year, month, day_of_month): (i32, u8, u8) = get_date_values(days, &POSIX_EPOCH);
         format!(
             "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}",
             year, month, day_of_month, hours, minutes, seconds
@@ -103,7 +103,7 @@ impl PosixTime64Ns {
     /// Retrieves an ISO 8601 string representation of the timestamp.
     pub fn to_iso8601_string(&self) -> String {
         let (days, hours, minutes, seconds): (i64, u8, u8, u8) = get_time_values(self.timestamp);
-        let (year, month, day_of_month): (i16, u8, u8) = get_date_values(days, &POSIX_EPOCH);
+        let (year, month, day_of_month): (i32, u8, u8) = get_date_values(days, &POSIX_EPOCH);
         format!(
             "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:09}",
             year, month, day_of_month, hours, minutes, seconds, self.fraction
diff --git a/keramics-datetime/src/util.rs b/keramics-datetime/src/util.rs
index 7062165..9ee2f2b 100644
--- a/keramics-datetime/src/util.rs
+++ b/keramics-datetime/src/util.rs
@@ -15,13 +15,13 @@ use super::epoch::Epoch;
 
 /// Determines if the year is a leap-year.
 #[inline(always)]
-fn is_leap_year(year: i16) -> bool {
+fn is_leap_year(year: i32) -> bool {
     (year % 4 == 0 && year % 100 != 0) || year % 400 == 0
 }
 
 /// Retrieves the number of days in a specific month.
 #[inline(always)]
-fn get_days_in_month(year: i16, month: u8) -> u8 {
+fn get_days_in_month(year: i32, month: u8) -> u8 {
     match month {
         1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
         2 => {
@@ -58,8 +58,8 @@ const DAYS_IN_YEAR: [i16; 10000] = calculate_days_in_year_lookup_table();
 
 /// Retrieves the number of days in a specific year.
 #[inline(always)]
-fn get_days_in_year(year: i16) -> i16 {
-    if year >= 0 && year <= 10000 {
+fn get_days_in_year(year: i32) -> i16 {
+    if (0..10000).contains(&year) {
         DAYS_IN_YEAR[year as usize]
     } else if is_leap_year(year) {
         366
@@ -90,8 +90,8 @@ const DAYS_IN_CENTURY: [i32; 100] = calculate_days_in_century_lookup_table();
 
 /// Retrieves the number of days in a specific century.
 #[inline(always)]
-fn get_days_in_century(year: i16) -> i32 {
-    if year >= 0 && year <= 10000 {
+fn get_days_in_century(year: i32) -> i32 {
+    if (0..10000).contains(&year) {
         DAYS_IN_CENTURY[(year / 100) as usize]
     } else if is_leap_year(year) {
         36525
@@ -101,15 +101,15 @@ fn get_days_in_century(year: i16) -> i32 {
 }
 
 /// Retrieves date values.
-pub fn get_date_values(mut number_of_days: i64, epoch: &Epoch) -> (i16, u8, u8) {
-    let mut year: i16 = epoch.year;
+pub fn get_date_values(mut number_of_days: i64, epoch: &Epoch) -> (i32, u8, u8) {
+    let mut year: i32 = epoch.year;
     let mut month: u8 = epoch.month;
 
     // Days before the epoch are counted from the same date a multiple of 400 years, of 146097 days,
     // before the epoch, given the calendar repeats every 400 years.
     if number_of_days < 0 {
         let number_of_cycles: i64 = (146096 - number_of_days) / 146097;
-        year -= (number_of_cycles * 400) as i16;
+        year -= (number_of_cycles * 400) as i32;
         number_of_days += number_of_cycles * 146097;
     }
     number_of_days += epoch.day_of_month as i64;
-- 
2.43.0


From e9798198b06e42a15fcda65f208474d90dd7c075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:31 +0000
Subject: [PATCH 003/148] fix: ISO-8859-2 and ISO-8859-4 encoders map code
 points outside the character set to 0x1a

---
 keramics-encodings/src/iso8859_2.rs | 6 +++---
 keramics-encodings/src/iso8859_4.rs | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/keramics-encodings/src/iso8859_2.rs b/keramics-encodings/src/iso8859_2.rs
index 620a5f4..05762b5 100644
--- a/keramics-encodings/src/iso8859_2.rs
+++ b/keramics-encodings/src/iso8859_2.rs
@@ -288,11 +288,11 @@ impl<'a> EncoderIso8859_2<'a> {
     const BASE_0X02D8: [Option<&'static [u8]>; 8] = [
         Some(&[0xa2]),
         Some(&[0xff]),
-        Some(&[0x1a]),
+        None,
         Some(&[0xb2]),
-        Some(&[0x1a]),
+        None,
         Some(&[0xbd]),
-        Some(&[0x1a]),
+        None,
         None,
     ];
 
diff --git a/keramics-encodings/src/iso8859_4.rs b/keramics-encodings/src/iso8859_4.rs
index f722fcd..5c1ce37 100644
--- a/keramics-encodings/src/iso8859_4.rs
+++ b/keramics-encodings/src/iso8859_4.rs
@@ -303,7 +303,7 @@ impl<'a> EncoderIso8859_4<'a> {
         None,
         Some(&[0xae]),
         Some(&[0xbe]),
-        Some(&[0x1a]),
+        None,
     ];
 
     /// Creates a new encoder.
-- 
2.43.0


From bea781fd471d7d415c3c97b6e142748d40cc2e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:31 +0000
Subject: [PATCH 004/148] fix: ASCII and ISO-8859-1 encoders repeat the error
 of an unsupported code point forever

---
 keramics-encodings/src/ascii.rs     | 4 ++--
 keramics-encodings/src/iso8859_1.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/keramics-encodings/src/ascii.rs b/keramics-encodings/src/ascii.rs
index ebfbf97..515f167 100644
--- a/keramics-encodings/src/ascii.rs
+++ b/keramics-encodings/src/ascii.rs
@@ -78,9 +78,9 @@ impl<'a> Iterator for EncoderAscii<'a> {
     fn next(&mut self) -> Option<Self::Item> {
         match self.code_points.get(self.code_point_index) {
             Some(code_point) => {
-                if code_point < &0x0080 {
-                    self.code_point_index += 1;
+                self.code_point_index += 1;
 
+                if code_point < &0x0080 {
                     Some(Ok(vec![*code_point as u8]))
                 } else {
                     Some(Err(keramics_core::error_trace_new!(format!(
diff --git a/keramics-encodings/src/iso8859_1.rs b/keramics-encodings/src/iso8859_1.rs
index 7ce7497..c9cf61a 100644
--- a/keramics-encodings/src/iso8859_1.rs
+++ b/keramics-encodings/src/iso8859_1.rs
@@ -78,9 +78,9 @@ impl<'a> Iterator for EncoderIso8859_1<'a> {
     fn next(&mut self) -> Option<Self::Item> {
         match self.code_points.get(self.code_point_index) {
             Some(code_point) => {
-                if code_point < &0x0100 {
-                    self.code_point_index += 1;
+                self.code_point_index += 1;
 
+                if code_point < &0x0100 {
                     Some(Ok(vec![*code_point as u8]))
                 } else {
                     Some(Err(keramics_core::error_trace_new!(format!(
-- 
2.43.0


From 0787567be2e5b41bc4c6cfadaefbe93a4c3505f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:31 +0000
Subject: [PATCH 005/148] fix: UTF-8 decoder accepts overlong sequences and
 code points above U+10FFFF

---
 keramics-encodings/src/utf8.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/keramics-encodings/src/utf8.rs b/keramics-encodings/src/utf8.rs
index eb715ab..6f4f6d2 100644
--- a/keramics-encodings/src/utf8.rs
+++ b/keramics-encodings/src/utf8.rs
@@ -51,7 +51,7 @@ impl<'a> Iterator for DecoderUtf8<'a> {
             }
             None => return None,
         };
-        if (byte_value1 >= 0x80 && byte_value1 < 0xc0) || byte_value1 > 0xf4 {
+        if (byte_value1 >= 0x80 && byte_value1 < 0xc2) || byte_value1 > 0xf4 {
             return Some(Err(keramics_core::error_trace_new!(format!(
                 "Unable to decode UTF-8: 0x{:02x} as Unicode",
                 byte_value1
@@ -75,6 +75,7 @@ impl<'a> Iterator for DecoderUtf8<'a> {
                 0xe0 => byte_value < 0xa0 || byte_value > 0xbf,
                 0xed => byte_value < 0x80 || byte_value > 0x9f,
                 0xf0 => byte_value < 0x90 || byte_value > 0xbf,
+                0xf4 => byte_value < 0x80 || byte_value > 0x8f,
                 _ => byte_value < 0x80 || byte_value > 0xbf,
             };
             if is_valid {
-- 
2.43.0


From bbb7824a6fe31c78ede839f1a17541824bf0ff0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:51 +0000
Subject: [PATCH 006/148] fix: Base64 decoding into a buffer that is too small
 panics

---
 keramics-encodings/src/base64.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/keramics-encodings/src/base64.rs b/keramics-encodings/src/base64.rs
index b9601da..19e96fc 100644
--- a/keramics-encodings/src/base64.rs
+++ b/keramics-encodings/src/base64.rs
@@ -130,6 +130,11 @@ impl Base64Context {
         let mut data_offset: usize = 0;
 
         while let Some(byte_value) = base64_stream.get_value()? {
+            if data_offset >= data.len() {
+                return Err(keramics_core::error_trace_new!(
+                    "Invalid data value too small"
+                ));
+            }
             data[data_offset] = byte_value;
             data_offset += 1;
         }
-- 
2.43.0


From 9d58a549060d6241cadf43605caf0a4eea5b7564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:13 +0000
Subject: [PATCH 007/148] fix: fake data stream repeats data when a read
 extends past the stored data

---
 keramics-core/src/fake_data_stream.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/keramics-core/src/fake_data_stream.rs b/keramics-core/src/fake_data_stream.rs
index 3d11ec6..9b9c51b 100644
--- a/keramics-core/src/fake_data_stream.rs
+++ b/keramics-core/src/fake_data_stream.rs
@@ -67,8 +67,10 @@ impl DataStream for FakeDataStream {
         while buf_offset < read_size {
             let read_remainder_size: usize = read_size - buf_offset;
 
-            let read_count: usize = if self.current_offset < self.data_size as u64 {
-                let data_offset: usize = self.current_offset as usize;
+            let current_offset: u64 = self.current_offset + (buf_offset as u64);
+
+            let read_count: usize = if current_offset < self.data_size as u64 {
+                let data_offset: usize = current_offset as usize;
 
                 let data_remainder_size: usize =
                     min(read_remainder_size, self.data_size - data_offset);
-- 
2.43.0


From 0b223e6551685627302e275e63a9b666f0f1f041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:04 +0000
Subject: [PATCH 008/148] fix: seeks of data streams to before the start wrap
 to a large offset

---
 keramics-core/src/data_stream.rs                 | 15 +++++++++++++++
 keramics-core/src/fake_data_stream.rs            | 16 +++-------------
 keramics-core/src/lib.rs                         |  2 +-
 keramics-formats/src/apm/partition.rs            | 15 ++-------------
 keramics-formats/src/ewf/image.rs                | 16 +++-------------
 keramics-formats/src/ext/block_stream.rs         | 15 ++-------------
 keramics-formats/src/fat/block_stream.rs         | 16 +++-------------
 keramics-formats/src/gpt/partition.rs            | 15 ++-------------
 keramics-formats/src/mbr/partition.rs            | 15 ++-------------
 keramics-formats/src/ntfs/block_stream.rs        | 15 ++-------------
 keramics-formats/src/ntfs/compressed_stream.rs   | 15 ++-------------
 .../src/ntfs/wof_compressed_stream.rs            | 15 ++-------------
 keramics-formats/src/qcow/file.rs                | 16 +++-------------
 keramics-formats/src/sparsebundle/image.rs       | 16 +++-------------
 keramics-formats/src/sparseimage/file.rs         | 16 +++-------------
 keramics-formats/src/udif/file.rs                | 16 +++-------------
 keramics-formats/src/vhd/file.rs                 | 16 +++-------------
 keramics-formats/src/vhdx/file.rs                | 16 +++-------------
 keramics-tools/src/range_stream.rs               | 16 +++-------------
 19 files changed, 60 insertions(+), 222 deletions(-)

diff --git a/keramics-core/src/data_stream.rs b/keramics-core/src/data_stream.rs
index c8c4cda..2843998 100644
--- a/keramics-core/src/data_stream.rs
+++ b/keramics-core/src/data_stream.rs
@@ -18,6 +18,21 @@ use super::errors::ErrorTrace;
 
 pub type DataStreamReference = Arc<RwLock<dyn DataStream>>;
 
+/// Determines the offset of a seek, a seek before the start is an error.
+pub fn get_seek_offset(current_offset: u64, size: u64, pos: SeekFrom) -> Result<u64, ErrorTrace> {
+    let result: Option<u64> = match pos {
+        SeekFrom::Current(relative_offset) => current_offset.checked_add_signed(relative_offset),
+        SeekFrom::End(relative_offset) => size.checked_add_signed(relative_offset),
+        SeekFrom::Start(offset) => Some(offset),
+    };
+    match result {
+        Some(offset) => Ok(offset),
+        None => Err(crate::error_trace_new!(
+            "Invalid seek offset value out of bounds"
+        )),
+    }
+}
+
 /// Data stream trait.
 pub trait DataStream: Send + Sync {
     /// Retrieves the size of the data.
diff --git a/keramics-core/src/fake_data_stream.rs b/keramics-core/src/fake_data_stream.rs
index 9b9c51b..78b55a3 100644
--- a/keramics-core/src/fake_data_stream.rs
+++ b/keramics-core/src/fake_data_stream.rs
@@ -98,19 +98,9 @@ impl DataStream for FakeDataStream {
 
     /// Sets the current position of the data.
     fn seek(&mut self, pos: SeekFrom) -> Result<u64, ErrorTrace> {
-        self.current_offset = match pos {
-            SeekFrom::Current(relative_offset) => {
-                let mut current_offset: i64 = self.current_offset as i64;
-                current_offset += relative_offset;
-                current_offset as u64
-            }
-            SeekFrom::End(relative_offset) => {
-                let mut end_offset: i64 = self.size as i64;
-                end_offset += relative_offset;
-                end_offset as u64
-            }
-            SeekFrom::Start(offset) => offset,
-        };
+        self.current_offset =
+            super::data_stream::get_seek_offset(self.current_offset, self.size, pos)?;
+
         Ok(self.current_offset)
     }
 }
diff --git a/keramics-core/src/lib.rs b/keramics-core/src/lib.rs
index 85a4a61..96163cc 100644
--- a/keramics-core/src/lib.rs
+++ b/keramics-core/src/lib.rs
@@ -20,7 +20,7 @@ pub mod macros;
 pub mod mediator;
 mod os_data_stream;
 
-pub use data_stream::{DataStream, DataStreamReference};
+pub use data_stream::{DataStream, DataStreamReference, get_seek_offset};
 pub use enums::ByteOrder;
 pub use errors::ErrorTrace;
 pub use fake_data_stream::{FakeDataStream, open_fake_data_stream};
diff --git a/keramics-formats/src/apm/partition.rs b/keramics-formats/src/apm/partition.rs
index b3024ac..4472d0a 100644
--- a/keramics-formats/src/apm/partition.rs
+++ b/keramics-formats/src/apm/partition.rs
@@ -103,19 +103,8 @@ impl DataStream for ApmPartition {
 
     /// Sets the current position of the data.
     fn seek(&mut self, pos: SeekFrom) -> Result<u64, ErrorTrace> {
-        self.current_offset = match pos {
-            SeekFrom::Current(relative_offset) => {
-                let mut current_offset: i64 = self.current_offset as i64;
-                current_offset += relative_offset;
-                current_offset as u64
-            }
-            SeekFrom::End(relative_offset) => {
-                let mut end_offset: i64 = self.size as i64;
-                end_offset += relative_offset;
-                end_offset as u64
-            }
-            SeekFrom::Start(offset) => offset,
-        };
+        self.current_offset = keramics_core::get_seek_offset(self.current_offset, self.size, pos)?;
+
         Ok(self.current_offset)
     }
 }
diff --git a/keramics-formats/src/ewf/image.rs b/keramics-formats/src/ewf/image.rs
index 0ee6d0c..7d7e617 100644
--- a/keramics-formats/src/ewf/image.rs
+++ b/keramics-formats/src/ewf/image.rs
@@ -963,19 +963,9 @@ impl DataStream for EwfImage {
 
     /// Sets the current position of the data.
     fn seek(&mut self, pos: SeekFrom) -> Result<u64, ErrorTrace> {
-        self.media_offset = match pos {
-            SeekFrom::Current(relative_offset) => {
-                let mut current_offset: i64 = self.media_offset as i64;
-                current_offset += relative_offset;
-                current_offset as u64
-            }
-            SeekFrom::End(relative_offset) => {
-                let mut end_offset: i64 = self.media_size as i64;
-                end_offset += relative_offset;
-                end_offset as u64
-            }
-            SeekFrom::Start(offset) => offset,
-        };
+        self.media_offset =
+            keramics_core::get_seek_offset(self.media_offset, self.media_size, pos)?;
+
         Ok(self.media_offset)
     }
 }
diff --git a/keramics-formats/src/ext/block_stream.rs b/keramics-formats/src/ext/block_stream.rs
index 1063cbc..b4b6409 100644
--- a/keramics-formats/src/ext/block_stream.rs
+++ b/keramics-formats/src/ext/block_stream.rs
@@ -177,19 +177,8 @@ impl DataStream for ExtBlockStream {
 
     /// Sets the current position of the data.
     fn seek(&mut self, pos: SeekFrom) -> Result<u64, ErrorTrace> {
-        self.current_offset = match pos {
-            SeekFrom::Current(relative_offset) => {
-                let mut current_offset: i64 = self.current_offset as i64;
-                current_offset += relative_offset;
-                current_offset as u64
-            }
-            SeekFrom::End(relative_offset) => {
-                let mut end_offset: i64 = self.size as i64;
-                end_offset += relative_offset;
-                end_offset as u64
-            }
-            SeekFrom::Start(offset) => offset,
-        };
+        self.current_offset = keramics_core::get_seek_offset(self.current_offset, self.size, pos)?;
+
         Ok(self.current_offset)
     }
 }
diff --git a/keramics-formats/src/fat/block_stream.rs b/keramics-formats/src/fat/block_stream.rs
index cc6cc2b..1b70c70 100644
--- a/keramics-formats/src/fat/block_stream.rs
+++ b/keramics-formats/src/fat/block_stream.rs
@@ -199,19 +199,9 @@ impl DataStream for FatBlockStream {
 
     /// Sets the current position of the data.
     fn seek(&mut self, pos: SeekFrom) -> Result<u64, ErrorTrace> {
-        self.current_offset = match pos {
-            SeekFrom::Current(relative_offset) => {
-                let mut current_offset: i64 = self.current_offset as i64;
-                current_offset += relative_offset;
-                current_offset as u64
-            }
-            SeekFrom::End(relative_offset) => {
-                let mut end_offset: i64 = self.size as i64;
-                end_offset += relative_offset;
-                end_offset as u64
-            }
-            SeekFrom::Start(offset) => offset,
-        };
+        self.current_offset =
+            keramics_core::get_seek_offset(self.current_offset, self.size as u64, pos)?;
+
         Ok(self.current_offset)
     }
 }
diff --git a/keramics-formats/src/gpt/partition.rs b/keramics-formats/src/gpt/partition.rs
index 8c61eb2..e4f7bc1 100644
--- a/keramics-formats/src/gpt/partition.rs
+++ b/keramics-formats/src/gpt/partition.rs
@@ -103,19 +103,8 @@ impl DataStream for GptPartition {
 
     /// Sets the current position of the data.
     fn seek(&mut self, pos: SeekFrom) -> Result<u64, ErrorTrace> {
-        self.current_offset = match pos {
-            SeekFrom::Current(relative_offset) => {
-                let mut current_offset: i64 = self.current_offset as i64;
-                current_offset += relative_offset;
-                current_offset as u64
-            }
-            SeekFrom::End(relative_offset) => {
-                let mut end_offset: i64 = self.size as i64;
-                end_offset += relative_offset;
-                end_offset as u64
-            }
-            SeekFrom::Start(offset) => offset,
-        };
+        self.current_offset = keramics_core::get_seek_offset(self.current_offset, self.size, pos)?;
+
         Ok(self.current_offset)
     }
 }
diff --git a/keramics-formats/src/mbr/partition.rs b/keramics-formats/src/mbr/partition.rs
index d1cb5ca..e95a586 100644
--- a/keramics-formats/src/mbr/partition.rs
+++ b/keramics-formats/src/mbr/partition.rs
@@ -102,19 +102,8 @@ impl DataStream for MbrPartition {
 
     /// Sets the current position of the data.
     fn seek(&mut self, pos: SeekFrom) -> Result<u64, ErrorTrace> {
-        self.current_offset = match pos {
-            SeekFrom::Current(relative_offset) => {
-                let mut current_offset: i64 = self.current_offset as i64;
-                current_offset += relative_offset;
-                current_offset as u64
-            }
-            SeekFrom::End(relative_offset) => {
-                let mut end_offset: i64 = self.size as i64;
-                end_offset += relative_offset;
-                end_offset as u64
-            }
-            SeekFrom::Start(offset) => offset,
-        };
+        self.current_offset = keramics_core::get_seek_offset(self.current_offset, self.size, pos)?;
+
         Ok(self.current_offset)
     }
 }
diff --git a/keramics-formats/src/ntfs/block_stream.rs b/keramics-formats/src/ntfs/block_stream.rs
index 1d2713a..050e744 100644
--- a/keramics-formats/src/ntfs/block_stream.rs
+++ b/keramics-formats/src/ntfs/block_stream.rs
@@ -254,19 +254,8 @@ impl DataStream for NtfsBlockStream {
 
     /// Sets the current position of the data.
     fn seek(&mut self, pos: SeekFrom) -> Result<u64, ErrorTrace> {
-        self.current_offset = match pos {
-            SeekFrom::Current(relative_offset) => {
-                let mut current_offset: i64 = self.current_offset as i64;
-                current_offset += relative_offset;
-                current_offset as u64
-            }
-            SeekFrom::End(relative_offset) => {
-                let mut end_offset: i64 = self.size as i64;
-                end_offset += relative_offset;
-                end_offset as u64
-            }
-            SeekFrom::Start(offset) => offset,
-        };
+        self.current_offset = keramics_core::get_seek_offset(self.current_offset, self.size, pos)?;
+
         Ok(self.current_offset)
     }
 }
diff --git a/keramics-formats/src/ntfs/compressed_stream.rs b/keramics-formats/src/ntfs/compressed_stream.rs
index 3c1e159..11d04cf 100644
--- a/keramics-formats/src/ntfs/compressed_stream.rs
+++ b/keramics-formats/src/ntfs/compressed_stream.rs
@@ -360,19 +360,8 @@ impl DataStream for NtfsCompressedStream {
 
     /// Sets the current position of the data.
     fn seek(&mut self, pos: SeekFrom) -> Result<u64, ErrorTrace> {
-        self.current_offset = match pos {
-            SeekFrom::Current(relative_offset) => {
-                let mut current_offset: i64 = self.current_offset as i64;
-                current_offset += relative_offset;
-                current_offset as u64
-            }
-            SeekFrom::End(relative_offset) => {
-                let mut end_offset: i64 = self.size as i64;
-                end_offset += relative_offset;
-                end_offset as u64
-            }
-            SeekFrom::Start(offset) => offset,
-        };
+        self.current_offset = keramics_core::get_seek_offset(self.current_offset, self.size, pos)?;
+
         Ok(self.current_offset)
     }
 }
diff --git a/keramics-formats/src/ntfs/wof_compressed_stream.rs b/keramics-formats/src/ntfs/wof_compressed_stream.rs
index 79ee328..fa41475 100644
--- a/keramics-formats/src/ntfs/wof_compressed_stream.rs
+++ b/keramics-formats/src/ntfs/wof_compressed_stream.rs
@@ -386,19 +386,8 @@ impl DataStream for NtfsWofCompressedStream {
 
     /// Sets the current position of the data.
     fn seek(&mut self, pos: SeekFrom) -> Result<u64, ErrorTrace> {
-        self.current_offset = match pos {
-            SeekFrom::Current(relative_offset) => {
-                let mut current_offset: i64 = self.current_offset as i64;
-                current_offset += relative_offset;
-                current_offset as u64
-            }
-            SeekFrom::End(relative_offset) => {
-                let mut end_offset: i64 = self.size as i64;
-                end_offset += relative_offset;
-                end_offset as u64
-            }
-            SeekFrom::Start(offset) => offset,
-        };
+        self.current_offset = keramics_core::get_seek_offset(self.current_offset, self.size, pos)?;
+
         Ok(self.current_offset)
     }
 }
diff --git a/keramics-formats/src/qcow/file.rs b/keramics-formats/src/qcow/file.rs
index 46bf951..1697fcc 100644
--- a/keramics-formats/src/qcow/file.rs
+++ b/keramics-formats/src/qcow/file.rs
@@ -564,19 +564,9 @@ impl DataStream for QcowFile {
 
     /// Sets the current position of the data.
     fn seek(&mut self, pos: SeekFrom) -> Result<u64, ErrorTrace> {
-        self.media_offset = match pos {
-            SeekFrom::Current(relative_offset) => {
-                let mut current_offset: i64 = self.media_offset as i64;
-                current_offset += relative_offset;
-                current_offset as u64
-            }
-            SeekFrom::End(relative_offset) => {
-                let mut end_offset: i64 = self.media_size as i64;
-                end_offset += relative_offset;
-                end_offset as u64
-            }
-            SeekFrom::Start(offset) => offset,
-        };
+        self.media_offset =
+            keramics_core::get_seek_offset(self.media_offset, self.media_size, pos)?;
+
         Ok(self.media_offset)
     }
 }
diff --git a/keramics-formats/src/sparsebundle/image.rs b/keramics-formats/src/sparsebundle/image.rs
index 107ab14..146e54a 100644
--- a/keramics-formats/src/sparsebundle/image.rs
+++ b/keramics-formats/src/sparsebundle/image.rs
@@ -296,19 +296,9 @@ impl DataStream for SparseBundleImage {
 
     /// Sets the current position of the data.
     fn seek(&mut self, pos: SeekFrom) -> Result<u64, ErrorTrace> {
-        self.media_offset = match pos {
-            SeekFrom::Current(relative_offset) => {
-                let mut current_offset: i64 = self.media_offset as i64;
-                current_offset += relative_offset;
-                current_offset as u64
-            }
-            SeekFrom::End(relative_offset) => {
-                let mut end_offset: i64 = self.media_size as i64;
-                end_offset += relative_offset;
-                end_offset as u64
-            }
-            SeekFrom::Start(offset) => offset,
-        };
+        self.media_offset =
+            keramics_core::get_seek_offset(self.media_offset, self.media_size, pos)?;
+
         Ok(self.media_offset)
     }
 }
diff --git a/keramics-formats/src/sparseimage/file.rs b/keramics-formats/src/sparseimage/file.rs
index 5a23feb..ebb4240 100644
--- a/keramics-formats/src/sparseimage/file.rs
+++ b/keramics-formats/src/sparseimage/file.rs
@@ -282,19 +282,9 @@ impl DataStream for SparseImageFile {
 
     /// Sets the current position of the data.
     fn seek(&mut self, pos: SeekFrom) -> Result<u64, ErrorTrace> {
-        self.media_offset = match pos {
-            SeekFrom::Current(relative_offset) => {
-                let mut current_offset: i64 = self.media_offset as i64;
-                current_offset += relative_offset;
-                current_offset as u64
-            }
-            SeekFrom::End(relative_offset) => {
-                let mut end_offset: i64 = self.media_size as i64;
-                end_offset += relative_offset;
-                end_offset as u64
-            }
-            SeekFrom::Start(offset) => offset,
-        };
+        self.media_offset =
+            keramics_core::get_seek_offset(self.media_offset, self.media_size, pos)?;
+
         Ok(self.media_offset)
     }
 }
diff --git a/keramics-formats/src/udif/file.rs b/keramics-formats/src/udif/file.rs
index b37fef4..fcec86b 100644
--- a/keramics-formats/src/udif/file.rs
+++ b/keramics-formats/src/udif/file.rs
@@ -580,19 +580,9 @@ impl DataStream for UdifFile {
 
     /// Sets the current position of the data.
     fn seek(&mut self, pos: SeekFrom) -> Result<u64, ErrorTrace> {
-        self.media_offset = match pos {
-            SeekFrom::Current(relative_offset) => {
-                let mut current_offset: i64 = self.media_offset as i64;
-                current_offset += relative_offset;
-                current_offset as u64
-            }
-            SeekFrom::End(relative_offset) => {
-                let mut end_offset: i64 = self.media_size as i64;
-                end_offset += relative_offset;
-                end_offset as u64
-            }
-            SeekFrom::Start(offset) => offset,
-        };
+        self.media_offset =
+            keramics_core::get_seek_offset(self.media_offset, self.media_size, pos)?;
+
         Ok(self.media_offset)
     }
 }
diff --git a/keramics-formats/src/vhd/file.rs b/keramics-formats/src/vhd/file.rs
index 6dd0d7d..d70d0d0 100644
--- a/keramics-formats/src/vhd/file.rs
+++ b/keramics-formats/src/vhd/file.rs
@@ -500,19 +500,9 @@ impl DataStream for VhdFile {
 
     /// Sets the current position of the data.
     fn seek(&mut self, pos: SeekFrom) -> Result<u64, ErrorTrace> {
-        self.media_offset = match pos {
-            SeekFrom::Current(relative_offset) => {
-                let mut current_offset: i64 = self.media_offset as i64;
-                current_offset += relative_offset;
-                current_offset as u64
-            }
-            SeekFrom::End(relative_offset) => {
-                let mut end_offset: i64 = self.media_size as i64;
-                end_offset += relative_offset;
-                end_offset as u64
-            }
-            SeekFrom::Start(offset) => offset,
-        };
+        self.media_offset =
+            keramics_core::get_seek_offset(self.media_offset, self.media_size, pos)?;
+
         Ok(self.media_offset)
     }
 }
diff --git a/keramics-formats/src/vhdx/file.rs b/keramics-formats/src/vhdx/file.rs
index 022ce89..fb176b7 100644
--- a/keramics-formats/src/vhdx/file.rs
+++ b/keramics-formats/src/vhdx/file.rs
@@ -865,19 +865,9 @@ impl DataStream for VhdxFile {
 
     /// Sets the current position of the data.
     fn seek(&mut self, pos: SeekFrom) -> Result<u64, ErrorTrace> {
-        self.media_offset = match pos {
-            SeekFrom::Current(relative_offset) => {
-                let mut current_offset: i64 = self.media_offset as i64;
-                current_offset += relative_offset;
-                current_offset as u64
-            }
-            SeekFrom::End(relative_offset) => {
-                let mut end_offset: i64 = self.media_size as i64;
-                end_offset += relative_offset;
-                end_offset as u64
-            }
-            SeekFrom::Start(offset) => offset,
-        };
+        self.media_offset =
+            keramics_core::get_seek_offset(self.media_offset, self.media_size, pos)?;
+
         Ok(self.media_offset)
     }
 }
diff --git a/keramics-tools/src/range_stream.rs b/keramics-tools/src/range_stream.rs
index 417ef72..59dcb6a 100644
--- a/keramics-tools/src/range_stream.rs
+++ b/keramics-tools/src/range_stream.rs
@@ -126,19 +126,9 @@ impl DataStream for FileRangeDataStream {
 
     /// Sets the current position of the data.
     fn seek(&mut self, pos: SeekFrom) -> Result<u64, ErrorTrace> {
-        self.current_offset = match pos {
-            SeekFrom::Current(relative_offset) => {
-                let mut current_offset: i64 = self.current_offset as i64;
-                current_offset += relative_offset;
-                current_offset as u64
-            }
-            SeekFrom::End(relative_offset) => {
-                let mut end_offset: i64 = self.range_size as i64;
-                end_offset += relative_offset;
-                end_offset as u64
-            }
-            SeekFrom::Start(offset) => offset,
-        };
+        self.current_offset =
+            keramics_core::get_seek_offset(self.current_offset, self.range_size, pos)?;
+
         Ok(self.current_offset)
     }
 }
-- 
2.43.0


From 5397e62a9044e96dc10e8d57745d0a7071b888a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:51 +0000
Subject: [PATCH 009/148] fix: debug format of arrays repeats elements or
 panics when empty

---
 keramics-core/src/formatters.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/keramics-core/src/formatters.rs b/keramics-core/src/formatters.rs
index 44ca025..9eae980 100644
--- a/keramics-core/src/formatters.rs
+++ b/keramics-core/src/formatters.rs
@@ -15,6 +15,9 @@
 pub fn debug_format_array(array: &Vec<String>) -> String {
     // TODO: pass string for indentation?
     let number_of_values: usize = array.len();
+    if number_of_values == 0 {
+        return String::from("[]");
+    }
     let string_value: &String = &array[0];
     let mut use_short_hand: bool = true;
 
@@ -29,12 +32,10 @@ pub fn debug_format_array(array: &Vec<String>) -> String {
     }
     if number_of_values > 16 {
         let mut string_parts: Vec<String> = Vec::new();
-        let last_value_index: usize = number_of_values - 16;
-        for value_index in (0..last_value_index).step_by(16) {
-            string_parts.push(array[value_index..value_index + 16].join(", "));
-        }
-        string_parts.push(array[last_value_index..].join(", "));
 
+        for values in array.chunks(16) {
+            string_parts.push(values.join(", "));
+        }
         return format!("[\n        {}\n    ]", string_parts.join(",\n        "));
     }
     return format!("[{}]", array.join(", "));
-- 
2.43.0


From efb2ce29c086f049c4c47aaa47aa2c7d9a2d456f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:51 +0000
Subject: [PATCH 010/148] fix: hexdump of a last line of a single byte lacks
 the character column and line end

---
 keramics-core/src/formatters.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keramics-core/src/formatters.rs b/keramics-core/src/formatters.rs
index 9eae980..4ec9eee 100644
--- a/keramics-core/src/formatters.rs
+++ b/keramics-core/src/formatters.rs
@@ -116,7 +116,7 @@ pub fn format_as_hexdump(data: &[u8], group: bool) -> String {
         }
         data_offset += 1;
     }
-    if data_size > 0 && character_index > 0 {
+    if groups_data_size < data_size {
         character_index += 1;
 
         for index in character_index..16 {
-- 
2.43.0


From 286e88c74857be9229c8f658c0a88b62d3402745 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:11:22 +0000
Subject: [PATCH 011/148] fix: signatures with the same pattern at different
 offsets are taken for one another

---
 keramics-sigscan/src/signature.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/keramics-sigscan/src/signature.rs b/keramics-sigscan/src/signature.rs
index 061570d..980776b 100644
--- a/keramics-sigscan/src/signature.rs
+++ b/keramics-sigscan/src/signature.rs
@@ -102,7 +102,9 @@ impl Signature {
 impl PartialEq for Signature {
     /// Determines if the signature is equivalent to another signature.
     fn eq(&self, other: &Signature) -> bool {
-        self.pattern == other.pattern
+        self.pattern_type == other.pattern_type
+            && self.pattern_offset == other.pattern_offset
+            && self.pattern == other.pattern
     }
 }
 
-- 
2.43.0


From c7463bf0340e52b52a4ef1b182e5aa24faa82e8b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:11:22 +0000
Subject: [PATCH 012/148] fix: unbound signatures are reported at the start of
 the buffer

---
 keramics-sigscan/src/scan_context.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keramics-sigscan/src/scan_context.rs b/keramics-sigscan/src/scan_context.rs
index b8ea4fb..bb61c9e 100644
--- a/keramics-sigscan/src/scan_context.rs
+++ b/keramics-sigscan/src/scan_context.rs
@@ -101,7 +101,7 @@ impl<'a> ScanContext<'a> {
                     let pattern_offset: u64 = match signature.pattern_type {
                         PatternType::BoundToEnd => self.data_size - signature.pattern_offset as u64,
                         PatternType::BoundToStart => signature.pattern_offset as u64,
-                        PatternType::Unbound => self.data_offset,
+                        PatternType::Unbound => self.data_offset + buffer_offset as u64,
                     };
                     self.results.insert(pattern_offset, Arc::clone(&signature));
 
-- 
2.43.0


From 5df16249332d853d1e2da3d6729fa264f858f5a4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:11:23 +0000
Subject: [PATCH 013/148] fix: scanning with a signature of a single byte
 panics

---
 keramics-sigscan/src/scan_context.rs | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/keramics-sigscan/src/scan_context.rs b/keramics-sigscan/src/scan_context.rs
index bb61c9e..58e24fb 100644
--- a/keramics-sigscan/src/scan_context.rs
+++ b/keramics-sigscan/src/scan_context.rs
@@ -110,23 +110,16 @@ impl<'a> ScanContext<'a> {
                 _ => {
                     let smallest_pattern_size: usize =
                         min(buffer_size, scan_tree.skip_table.smallest_pattern_size);
-                    let mut skip_value_offset: usize =
+                    let skip_value_offset: usize =
                         min(buffer_offset + smallest_pattern_size - 1, buffer_end_offset);
 
-                    loop {
-                        let byte_value: u8 = buffer[skip_value_offset];
-                        skip_value = scan_tree.skip_table.get_skip_value(&byte_value);
-                        if skip_value == 0 {
-                            skip_value = match scan_tree.pattern_type {
-                                PatternType::Unbound => scan_tree.skip_table.smallest_skip_value,
-                                _ => scan_tree.skip_table.smallest_pattern_size,
-                            };
-                        }
-                        skip_value_offset -= 1;
-
-                        if skip_value_offset <= buffer_offset || skip_value != 0 {
-                            break;
-                        }
+                    let byte_value: u8 = buffer[skip_value_offset];
+                    skip_value = scan_tree.skip_table.get_skip_value(&byte_value);
+                    if skip_value == 0 {
+                        skip_value = match scan_tree.pattern_type {
+                            PatternType::Unbound => scan_tree.skip_table.smallest_skip_value,
+                            _ => scan_tree.skip_table.smallest_pattern_size,
+                        };
                     }
                 }
             };
-- 
2.43.0


From 185c38ac1d486670d5aab3283eeaab288190e41e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:11:54 +0000
Subject: [PATCH 014/148] fix: building a scan tree of signatures that share
 their start overflows the stack

---
 keramics-sigscan/src/signature_table.rs | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/keramics-sigscan/src/signature_table.rs b/keramics-sigscan/src/signature_table.rs
index fdd2275..0d928fa 100644
--- a/keramics-sigscan/src/signature_table.rs
+++ b/keramics-sigscan/src/signature_table.rs
@@ -11,7 +11,6 @@
  * under the License.
  */
 
-use std::cmp::min;
 use std::collections::BTreeMap;
 use std::sync::Arc;
 
@@ -34,9 +33,6 @@ pub(super) struct SignatureTable {
     /// Byte value groups.
     pub byte_value_groups: BTreeMap<usize, ByteValueGroup>,
 
-    /// Smallest pattern offset.
-    pub smallest_pattern_offset: usize,
-
     /// Signatures.
     pub signatures: Vec<SignatureReference>,
 
@@ -57,7 +53,6 @@ impl SignatureTable {
             mediator: Mediator::current(),
             pattern_type: pattern_type.clone(),
             byte_value_groups: BTreeMap::new(),
-            smallest_pattern_offset: 0,
             signatures: Vec::new(),
             byte_value_weights: PatternWeights::new(),
             occurrence_weights: PatternWeights::new(),
@@ -130,8 +125,8 @@ impl SignatureTable {
             2 => self.get_pattern_offset_by_occurrence_weights(),
             _ => self.get_pattern_offset_by_similarity_weights(),
         };
-        if result.is_none() && self.byte_value_groups.len() > 0 {
-            result = Some(self.smallest_pattern_offset);
+        if result.is_none() {
+            result = self.byte_value_groups.keys().next().copied();
         }
         if self.mediator.debug_output {
             self.mediator.debug_print(format!(
@@ -384,8 +379,6 @@ impl SignatureTable {
         match self.byte_value_groups.get_mut(&pattern_offset) {
             Some(byte_value_group) => byte_value_group.insert_signature(byte_value, signature),
             None => {
-                self.smallest_pattern_offset = min(pattern_offset, self.smallest_pattern_offset);
-
                 let mut byte_value_group: ByteValueGroup = ByteValueGroup::new(pattern_offset);
                 byte_value_group.insert_signature(byte_value, signature);
 
-- 
2.43.0


From 2894271a77dcdde6c37c7468e8255a757f77a9e2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:11:54 +0000
Subject: [PATCH 015/148] fix: building a scan tree of signatures without
 distinct byte values fails

---
 keramics-sigscan/src/scan_tree.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/keramics-sigscan/src/scan_tree.rs b/keramics-sigscan/src/scan_tree.rs
index bebe11c..01e6ae7 100644
--- a/keramics-sigscan/src/scan_tree.rs
+++ b/keramics-sigscan/src/scan_tree.rs
@@ -11,7 +11,7 @@
  * under the License.
  */
 
-use std::cmp::{max, min};
+use std::cmp::{Reverse, max, min};
 use std::collections::HashMap;
 use std::sync::Arc;
 
@@ -41,6 +41,9 @@ pub(super) struct ScanTreeNode {
 
     /// Scan objects.
     pub scan_objects: HashMap<i16, ScanObject>,
+
+    /// Signatures that cannot be told apart by a byte value at another pattern offset.
+    pub signatures: Vec<SignatureReference>,
 }
 
 impl ScanTreeNode {
@@ -49,6 +52,7 @@ impl ScanTreeNode {
         Self {
             pattern_offset: 0,
             scan_objects: HashMap::new(),
+            signatures: Vec::new(),
         }
     }
 
@@ -62,9 +66,16 @@ impl ScanTreeNode {
         self.pattern_offset = match signature_table.get_most_significant_pattern_offset() {
             Some(pattern_offset) => pattern_offset,
             None => {
-                return Err(BuildError::new(format!(
-                    "Unable to determine most significant pattern offset"
-                )));
+                if signature_table.signatures.is_empty() {
+                    return Err(BuildError::new(format!(
+                        "Unable to determine most significant pattern offset"
+                    )));
+                }
+                // All byte values of the patterns have been used.
+                self.signatures = signature_table.signatures.clone();
+                self.signatures
+                    .sort_by_key(|signature| Reverse(signature.pattern_size));
+                return Ok(());
             }
         };
         let signatures_in_node: Vec<SignatureReference> =
@@ -170,6 +181,11 @@ impl ScanTreeNode {
         if data_offset >= data_size {
             return ScanResult::None;
         }
+        for signature in self.signatures.iter() {
+            if signature.scan_buffer(data_offset, data_size, buffer, buffer_offset, buffer_size) {
+                return ScanResult::Signature(Arc::clone(signature));
+            }
+        }
         let mediator: MediatorReference = Mediator::current();
 
         let scan_offset: usize = buffer_offset + self.pattern_offset;
-- 
2.43.0


From b332bb23bd1075d5ae61034750a8ba1761d77bfe Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:11:55 +0000
Subject: [PATCH 016/148] fix: scanning data smaller than the offset of a
 signature bound to its end panics

---
 keramics-sigscan/src/signature.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/keramics-sigscan/src/signature.rs b/keramics-sigscan/src/signature.rs
index 980776b..daa0934 100644
--- a/keramics-sigscan/src/signature.rs
+++ b/keramics-sigscan/src/signature.rs
@@ -64,7 +64,10 @@ impl Signature {
         buffer_size: usize,
     ) -> bool {
         let pattern_offset: u64 = match self.pattern_type {
-            PatternType::BoundToEnd => data_size - self.pattern_offset as u64,
+            PatternType::BoundToEnd => match data_size.checked_sub(self.pattern_offset as u64) {
+                Some(pattern_offset) => pattern_offset,
+                None => return false,
+            },
             PatternType::BoundToStart => self.pattern_offset as u64,
             PatternType::Unbound => data_offset,
         };
@@ -86,7 +89,7 @@ impl Signature {
         };
         let scan_end_offset: usize = scan_offset + self.pattern_size;
 
-        if scan_end_offset > buffer_size || (scan_end_offset as u64) > data_size {
+        if scan_end_offset > buffer_size || data_offset + (scan_end_offset as u64) > data_size {
             return false;
         }
         if buffer[scan_offset..scan_end_offset] != self.pattern {
-- 
2.43.0


From f198a4479a4cb6ee69c2808842100e9eb5880f04 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:12:30 +0000
Subject: [PATCH 017/148] fix: signatures bound to an offset are missed in
 other than the first buffer or after another match

---
 keramics-sigscan/src/scan_context.rs | 84 ++++++++++++++++------------
 keramics-sigscan/src/scan_tree.rs    | 51 +++++++++++++++++
 2 files changed, 100 insertions(+), 35 deletions(-)

diff --git a/keramics-sigscan/src/scan_context.rs b/keramics-sigscan/src/scan_context.rs
index 58e24fb..9ec2675 100644
--- a/keramics-sigscan/src/scan_context.rs
+++ b/keramics-sigscan/src/scan_context.rs
@@ -71,15 +71,51 @@ impl<'a> ScanContext<'a> {
         }
     }
 
-    /// Scans a buffer with a specific scan tree.
-    fn scan_buffer_with_scan_tree(
+    /// Inserts a result, where the longest signature at an offset takes precedence.
+    fn insert_result(&mut self, pattern_offset: u64, signature: &SignatureReference) {
+        if let Some(result) = self.results.get(&pattern_offset) {
+            if result.pattern_size > signature.pattern_size {
+                return;
+            }
+        }
+        self.results.insert(pattern_offset, Arc::clone(signature));
+    }
+
+    /// Scans a buffer with a scan tree of signatures bound to an offset, where the range offset is
+    /// relative to the start of the data.
+    fn scan_buffer_with_bound_scan_tree(
+        &mut self,
+        scan_tree: &'a ScanTree,
+        buffer: &[u8],
+        range_offset: i64,
+    ) {
+        let mut signatures: Vec<SignatureReference> = Vec::new();
+
+        scan_tree.root_node.scan_buffer_for_signatures(
+            self.data_offset,
+            self.data_size,
+            buffer,
+            range_offset - (self.data_offset as i64),
+            &mut signatures,
+        );
+        for signature in signatures.iter() {
+            let pattern_offset: u64 = match signature.pattern_type {
+                PatternType::BoundToEnd => self.data_size - signature.pattern_offset as u64,
+                _ => signature.pattern_offset as u64,
+            };
+            self.insert_result(pattern_offset, signature);
+        }
+    }
+
+    /// Scans a buffer with a scan tree of unbound signatures.
+    fn scan_buffer_with_unbound_scan_tree(
         &mut self,
         scan_tree: &'a ScanTree,
         buffer: &[u8],
-        mut buffer_offset: usize,
         buffer_size: usize,
     ) {
         let buffer_end_offset: usize = buffer_size - 1;
+        let mut buffer_offset: usize = 0;
         let mut skip_value: usize;
         let mut scan_tree_node: &ScanTreeNode = &scan_tree.root_node;
 
@@ -98,12 +134,7 @@ impl<'a> ScanContext<'a> {
                     continue;
                 }
                 ScanResult::Signature(signature) => {
-                    let pattern_offset: u64 = match signature.pattern_type {
-                        PatternType::BoundToEnd => self.data_size - signature.pattern_offset as u64,
-                        PatternType::BoundToStart => signature.pattern_offset as u64,
-                        PatternType::Unbound => self.data_offset + buffer_offset as u64,
-                    };
-                    self.results.insert(pattern_offset, Arc::clone(&signature));
+                    self.insert_result(self.data_offset + buffer_offset as u64, &signature);
 
                     skip_value = signature.pattern_size;
                 }
@@ -116,16 +147,10 @@ impl<'a> ScanContext<'a> {
                     let byte_value: u8 = buffer[skip_value_offset];
                     skip_value = scan_tree.skip_table.get_skip_value(&byte_value);
                     if skip_value == 0 {
-                        skip_value = match scan_tree.pattern_type {
-                            PatternType::Unbound => scan_tree.skip_table.smallest_skip_value,
-                            _ => scan_tree.skip_table.smallest_pattern_size,
-                        };
+                        skip_value = scan_tree.skip_table.smallest_skip_value;
                     }
                 }
             };
-            if scan_tree.pattern_type != PatternType::Unbound {
-                break;
-            }
             buffer_offset += skip_value;
         }
     }
@@ -137,35 +162,24 @@ impl<'a> ScanContext<'a> {
             return;
         }
         if self.data_offset < self.header_range_size {
-            self.scan_buffer_with_scan_tree(&self.scanner.header_scan_tree, buffer, 0, buffer_size);
+            self.scan_buffer_with_bound_scan_tree(&self.scanner.header_scan_tree, buffer, 0);
         }
         let next_data_offset: u64 = self.data_offset + buffer_size as u64;
 
-        let footer_start_offset: u64 = if self.footer_range_size <= self.data_size {
-            self.data_size - self.footer_range_size
-        } else {
-            0
-        };
-        if next_data_offset >= footer_start_offset {
-            let remaining_data_size: usize = (next_data_offset - footer_start_offset) as usize;
-
-            let buffer_start_offset: usize = if remaining_data_size < buffer_size {
-                buffer_size - remaining_data_size
-            } else {
-                0
-            };
-            self.scan_buffer_with_scan_tree(
+        // Note that the footer range can start before the start of the data.
+        let footer_start_offset: i64 = self.data_size as i64 - self.footer_range_size as i64;
+
+        if next_data_offset as i64 >= footer_start_offset {
+            self.scan_buffer_with_bound_scan_tree(
                 &self.scanner.footer_scan_tree,
                 buffer,
-                buffer_start_offset,
-                buffer_size,
+                footer_start_offset,
             );
         }
         if self.unbound_range_size > 0 {
-            self.scan_buffer_with_scan_tree(
+            self.scan_buffer_with_unbound_scan_tree(
                 &self.scanner.unbound_scan_tree,
                 buffer,
-                0,
                 buffer_size,
             );
         }
diff --git a/keramics-sigscan/src/scan_tree.rs b/keramics-sigscan/src/scan_tree.rs
index 01e6ae7..4c9e0d1 100644
--- a/keramics-sigscan/src/scan_tree.rs
+++ b/keramics-sigscan/src/scan_tree.rs
@@ -169,6 +169,57 @@ impl ScanTreeNode {
         Ok(())
     }
 
+    /// Scans a buffer for all matching signatures, where the range offset is the start of the range
+    /// of pattern offsets relative to the start of the buffer.
+    pub(super) fn scan_buffer_for_signatures(
+        &self,
+        data_offset: u64,
+        data_size: u64,
+        buffer: &[u8],
+        range_offset: i64,
+        signatures: &mut Vec<SignatureReference>,
+    ) {
+        let buffer_size: usize = buffer.len();
+        let scan_offset: i64 = range_offset + self.pattern_offset as i64;
+
+        let mut scan_object: Option<&ScanObject> = None;
+
+        if scan_offset >= 0 && scan_offset < buffer_size as i64 {
+            scan_object = self.scan_objects.get(&(buffer[scan_offset as usize] as i16));
+        }
+        for signature in self.signatures.iter() {
+            if signature.scan_buffer(data_offset, data_size, buffer, 0, buffer_size) {
+                signatures.push(Arc::clone(signature));
+            }
+        }
+        if let Some(ScanObject::Signature(signature)) = scan_object {
+            if signature.scan_buffer(data_offset, data_size, buffer, 0, buffer_size) {
+                signatures.push(Arc::clone(signature));
+            }
+            scan_object = None;
+        }
+        // Note that a sub node also contains the signatures of the default scan object.
+        if scan_object.is_none() {
+            scan_object = self.scan_objects.get(&DEFAULT_SCAN_OBJECT);
+        }
+        match scan_object {
+            Some(ScanObject::ScanTreeNode(scan_tree_node)) => scan_tree_node
+                .scan_buffer_for_signatures(
+                    data_offset,
+                    data_size,
+                    buffer,
+                    range_offset,
+                    signatures,
+                ),
+            Some(ScanObject::Signature(signature)) => {
+                if signature.scan_buffer(data_offset, data_size, buffer, 0, buffer_size) {
+                    signatures.push(Arc::clone(signature));
+                }
+            }
+            None => {}
+        }
+    }
+
     /// Scans a buffer for a matching scan object.
     pub(super) fn scan_buffer(
         &self,
-- 
2.43.0


From 7ddca46b150573a8abbaecb82a1af45be6093b84 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:12:54 +0000
Subject: [PATCH 018/148] fix: scanning for unbound signatures continues in the
 middle of the scan tree

---
 keramics-sigscan/src/scan_context.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/keramics-sigscan/src/scan_context.rs b/keramics-sigscan/src/scan_context.rs
index 9ec2675..e6d3b79 100644
--- a/keramics-sigscan/src/scan_context.rs
+++ b/keramics-sigscan/src/scan_context.rs
@@ -151,6 +151,7 @@ impl<'a> ScanContext<'a> {
                     }
                 }
             };
+            scan_tree_node = &scan_tree.root_node;
             buffer_offset += skip_value;
         }
     }
-- 
2.43.0


From d6fc7895f4b7d25854489952ea157130c56ab4c2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:12:55 +0000
Subject: [PATCH 019/148] fix: signatures that span two buffers are missed

---
 keramics-sigscan/src/scan_context.rs | 61 ++++++++++++++++++++++++++--
 1 file changed, 57 insertions(+), 4 deletions(-)

diff --git a/keramics-sigscan/src/scan_context.rs b/keramics-sigscan/src/scan_context.rs
index e6d3b79..213f9c8 100644
--- a/keramics-sigscan/src/scan_context.rs
+++ b/keramics-sigscan/src/scan_context.rs
@@ -41,6 +41,19 @@ pub struct ScanContext<'a> {
     /// Unbound range size.
     unbound_range_size: usize,
 
+    /// Largest pattern size.
+    largest_pattern_size: usize,
+
+    /// Offset from which to continue the scan for unbound signatures.
+    unbound_data_offset: u64,
+
+    /// Last part of the data of the previous buffers, in which a signature that continues in
+    /// the next buffer can start.
+    remaining_data: Vec<u8>,
+
+    /// End offset of the remaining data.
+    remaining_data_end_offset: u64,
+
     /// Results.
     pub results: HashMap<u64, SignatureReference>,
 }
@@ -67,6 +80,15 @@ impl<'a> ScanContext<'a> {
             header_range_size: header_end_offset as u64,
             footer_range_size: footer_end_offset as u64,
             unbound_range_size: unbound_range_size,
+            largest_pattern_size: scanner
+                .signatures
+                .iter()
+                .map(|signature| signature.pattern_size)
+                .max()
+                .unwrap_or(0),
+            unbound_data_offset: 0,
+            remaining_data: Vec::new(),
+            remaining_data_end_offset: 0,
             results: HashMap::new(),
         }
     }
@@ -115,11 +137,20 @@ impl<'a> ScanContext<'a> {
         buffer_size: usize,
     ) {
         let buffer_end_offset: usize = buffer_size - 1;
-        let mut buffer_offset: usize = 0;
+        let mut buffer_offset: usize =
+            self.unbound_data_offset.saturating_sub(self.data_offset) as usize;
+
+        // A signature near the end of the buffer can continue in the next one.
+        let next_data_offset: u64 = self.data_offset + buffer_size as u64;
+        let scan_size: usize = if next_data_offset < self.data_size {
+            (buffer_size + 1).saturating_sub(self.largest_pattern_size)
+        } else {
+            buffer_size
+        };
         let mut skip_value: usize;
         let mut scan_tree_node: &ScanTreeNode = &scan_tree.root_node;
 
-        while buffer_offset < buffer_size {
+        while buffer_offset < scan_size {
             let scan_result: ScanResult = scan_tree_node.scan_buffer(
                 self.data_offset,
                 self.data_size,
@@ -154,14 +185,32 @@ impl<'a> ScanContext<'a> {
             scan_tree_node = &scan_tree.root_node;
             buffer_offset += skip_value;
         }
+        self.unbound_data_offset = self.data_offset + buffer_offset as u64;
     }
 
     /// Scans the buffer for signatures.
     pub fn scan_buffer(&mut self, buffer: &[u8]) {
-        let buffer_size: usize = buffer.len();
-        if buffer_size == 0 {
+        if buffer.is_empty() {
             return;
         }
+        if self.remaining_data_end_offset != self.data_offset {
+            self.remaining_data.clear();
+            self.unbound_data_offset = self.data_offset;
+        }
+        if self.remaining_data.is_empty() {
+            self.scan_data(buffer);
+        } else {
+            let mut data: Vec<u8> = std::mem::take(&mut self.remaining_data);
+            self.data_offset -= data.len() as u64;
+
+            data.extend_from_slice(buffer);
+            self.scan_data(&data);
+        }
+    }
+
+    /// Scans data, of one or more buffers, for signatures.
+    fn scan_data(&mut self, buffer: &[u8]) {
+        let buffer_size: usize = buffer.len();
         if self.data_offset < self.header_range_size {
             self.scan_buffer_with_bound_scan_tree(&self.scanner.header_scan_tree, buffer, 0);
         }
@@ -185,6 +234,10 @@ impl<'a> ScanContext<'a> {
             );
         }
         self.data_offset = next_data_offset;
+
+        let remaining_size: usize = min(buffer_size, self.largest_pattern_size.saturating_sub(1));
+        self.remaining_data = buffer[buffer_size - remaining_size..].to_vec();
+        self.remaining_data_end_offset = next_data_offset;
     }
 }
 
-- 
2.43.0


From 9f8b8670a05fe435e43aacda841e0d504a104ee0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:19:30 +0000
Subject: [PATCH 020/148] fix: reading an UUID from a string accepts signs and
 panics on non-ASCII text

---
 keramics-types/src/uuid.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/keramics-types/src/uuid.rs b/keramics-types/src/uuid.rs
index 30601bc..539a66d 100644
--- a/keramics-types/src/uuid.rs
+++ b/keramics-types/src/uuid.rs
@@ -83,6 +83,12 @@ impl Uuid {
         if string_length != 36 {
             return Err(ParseError::new(format!("Unsupported string length")));
         }
+        if !string
+            .bytes()
+            .all(|byte_value| byte_value.is_ascii_hexdigit() || byte_value == b'-')
+        {
+            return Err(ParseError::new(format!("Unsupported string")));
+        }
         if &string[8..9] != "-"
             || &string[13..14] != "-"
             || &string[18..19] != "-"
-- 
2.43.0


From 2efd0cd1cc144db63d20aeec3149a78213be1287 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:19:30 +0000
Subject: [PATCH 021/148] fix: reading an UCS-2 or UTF-16 string from an odd
 number of bytes panics

---
 keramics-types/src/ucs2_string.rs  | 6 +++---
 keramics-types/src/utf16_string.rs | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/keramics-types/src/ucs2_string.rs b/keramics-types/src/ucs2_string.rs
index cab4401..07be8e4 100644
--- a/keramics-types/src/ucs2_string.rs
+++ b/keramics-types/src/ucs2_string.rs
@@ -47,7 +47,7 @@ impl Ucs2String {
 
     /// Reads a string from a byte sequence in big-endian.
     pub fn from_be_bytes(data: &[u8]) -> Self {
-        let data_size: usize = data.len();
+        let data_size: usize = data.len() - (data.len() % 2);
         let mut elements: Vec<u16> = Vec::new();
 
         for data_offset in (0..data_size).step_by(2) {
@@ -62,7 +62,7 @@ impl Ucs2String {
 
     /// Reads a string from a byte sequence in little-endian.
     pub fn from_le_bytes(data: &[u8]) -> Self {
-        let data_size: usize = data.len();
+        let data_size: usize = data.len() - (data.len() % 2);
         let mut elements: Vec<u16> = Vec::new();
 
         for data_offset in (0..data_size).step_by(2) {
@@ -89,7 +89,7 @@ impl Ucs2String {
 
     /// Reads a string from a buffer in little-endian.
     pub fn read_data_le(&mut self, data: &[u8]) {
-        let data_size: usize = data.len();
+        let data_size: usize = data.len() - (data.len() % 2);
 
         for data_offset in (0..data_size).step_by(2) {
             let value_16bit: u16 = bytes_to_u16_le!(data, data_offset);
diff --git a/keramics-types/src/utf16_string.rs b/keramics-types/src/utf16_string.rs
index 306b23b..f07f799 100644
--- a/keramics-types/src/utf16_string.rs
+++ b/keramics-types/src/utf16_string.rs
@@ -30,7 +30,7 @@ impl Utf16String {
 
     /// Reads a big-endian UTF-16 string from a byte sequence.
     pub fn from_be_bytes(data: &[u8]) -> Self {
-        let data_size: usize = data.len();
+        let data_size: usize = data.len() - (data.len() % 2);
         let mut elements: Vec<u16> = Vec::new();
 
         for data_offset in (0..data_size).step_by(2) {
@@ -45,7 +45,7 @@ impl Utf16String {
 
     /// Reads a little-endian UTF-16 string from a byte sequence.
     pub fn from_le_bytes(data: &[u8]) -> Self {
-        let data_size: usize = data.len();
+        let data_size: usize = data.len() - (data.len() % 2);
         let mut elements: Vec<u16> = Vec::new();
 
         for data_offset in (0..data_size).step_by(2) {
-- 
2.43.0


From cdd795811a3eaedb39b85aeaaf5dd888f5d4dab7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:19:30 +0000
Subject: [PATCH 022/148] fix: UTF-16 strings with an unpaired surrogate cannot
 be converted to text

---
 keramics-types/src/utf16_string.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/keramics-types/src/utf16_string.rs b/keramics-types/src/utf16_string.rs
index f07f799..0a5c5da 100644
--- a/keramics-types/src/utf16_string.rs
+++ b/keramics-types/src/utf16_string.rs
@@ -60,7 +60,13 @@ impl Utf16String {
 
     /// Converts the UTF-16 string to a `String`.
     pub fn to_string(&self) -> String {
-        String::from_utf16(&self.elements).unwrap()
+        char::decode_utf16(self.elements.iter().copied())
+            .map(|result| match result {
+                Ok(unicode_character) => unicode_character.to_string(),
+                Err(error) => format!("\\{{{:04x}}}", error.unpaired_surrogate()),
+            })
+            .collect::<Vec<String>>()
+            .join("")
     }
 }
 
-- 
2.43.0


From b3c863c694ede5884384b814d4a18a8520628917 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:19:30 +0000
Subject: [PATCH 023/148] fix: UTF-8 decoder repeats the error of an
 unsupported byte forever

---
 keramics-encodings/src/utf8.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/keramics-encodings/src/utf8.rs b/keramics-encodings/src/utf8.rs
index 6f4f6d2..5907d22 100644
--- a/keramics-encodings/src/utf8.rs
+++ b/keramics-encodings/src/utf8.rs
@@ -51,6 +51,9 @@ impl<'a> Iterator for DecoderUtf8<'a> {
             }
             None => return None,
         };
+        // Continue after the first byte if the byte sequence is not supported.
+        self.byte_index = byte_index;
+
         if (byte_value1 >= 0x80 && byte_value1 < 0xc2) || byte_value1 > 0xf4 {
             return Some(Err(keramics_core::error_trace_new!(format!(
                 "Unable to decode UTF-8: 0x{:02x} as Unicode",
-- 
2.43.0


From 5a60e6829926497e9651da27730231737050844c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:19:30 +0000
Subject: [PATCH 024/148] fix: byte strings that cannot be decoded panic when
 converted to text

---
 keramics-types/src/byte_string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keramics-types/src/byte_string.rs b/keramics-types/src/byte_string.rs
index eea9ce5..6bb8f85 100644
--- a/keramics-types/src/byte_string.rs
+++ b/keramics-types/src/byte_string.rs
@@ -139,7 +139,7 @@ impl ByteString {
                     };
                     string_parts.push(string);
                 }
-                Err(error) => todo!(),
+                Err(_) => string_parts.push(char::REPLACEMENT_CHARACTER.to_string()),
             }
         }
         string_parts.join("")
-- 
2.43.0


From 773a15bc8783b44f77552c1226f25ff59c232e1e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:19:30 +0000
Subject: [PATCH 025/148] fix: layout of a 64-bit bit field panics

---
 keramics-layout-map/src/structure.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/keramics-layout-map/src/structure.rs b/keramics-layout-map/src/structure.rs
index 5e10d77..139751b 100644
--- a/keramics-layout-map/src/structure.rs
+++ b/keramics-layout-map/src/structure.rs
@@ -668,8 +668,11 @@ impl StructureLayout {
         for bitfield in bitfields_group.bitfields.iter() {
             let field_name: Ident = format_ident!("{}", bitfield.name);
 
-            let bit_mask: usize = (1 << bitfield.number_of_bits) - 1;
-            let bit_mask_literal = Literal::usize_unsuffixed(bit_mask);
+            let bit_mask: u64 = match bitfield.number_of_bits {
+                0 => 0,
+                number_of_bits => u64::MAX >> (64 - number_of_bits),
+            };
+            let bit_mask_literal = Literal::u64_unsuffixed(bit_mask);
             let quote_from_packed_value = if bit_offset == 0 {
                 quote!(#packed_field_name & #bit_mask_literal)
             } else {
-- 
2.43.0


From 63fefcb154b1a4ada18fdd923e7303e85695d8e3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:19:30 +0000
Subject: [PATCH 026/148] fix: layout with a signed 8-bit integer does not
 compile

---
 keramics-layout-map/src/structure.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/keramics-layout-map/src/structure.rs b/keramics-layout-map/src/structure.rs
index 139751b..a3be223 100644
--- a/keramics-layout-map/src/structure.rs
+++ b/keramics-layout-map/src/structure.rs
@@ -405,9 +405,8 @@ impl StructureLayoutField {
                 }
                 _ => panic!("Unsupported byte order"),
             },
-            DataType::SignedInteger8Bit | DataType::UnsignedInteger8Bit => {
-                quote!(data[#data_offset])
-            }
+            DataType::SignedInteger8Bit => quote!((data[#data_offset] as i8)),
+            DataType::UnsignedInteger8Bit => quote!(data[#data_offset]),
             DataType::SignedInteger16Bit => match byte_order {
                 &ByteOrder::BigEndian => {
                     quote!(keramics_types::bytes_to_i16_be!(data, #data_offset))
-- 
2.43.0


From 8ad4d11f48f10f6ebfbe1488ddb18377ebff3d9c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:20:02 +0000
Subject: [PATCH 027/148] fix: element counts of fields in a group of a layout
 are ignored

---
 keramics-layout-map/src/macros.rs    | 17 +++++++++++++++--
 keramics-layout-map/src/structure.rs | 28 ++++++++++++++++++++++++----
 2 files changed, 39 insertions(+), 6 deletions(-)

diff --git a/keramics-layout-map/src/macros.rs b/keramics-layout-map/src/macros.rs
index 380c6e1..3169a29 100644
--- a/keramics-layout-map/src/macros.rs
+++ b/keramics-layout-map/src/macros.rs
@@ -559,8 +559,21 @@ fn parse_structure_layout_group(
     let mut group: StructureLayoutGroup = StructureLayoutGroup::new(&condition);
 
     for field_options in group_options.fields.iter() {
-        let field: StructureLayoutField = parse_structure_layout_field(&name, field_options)?;
-
+        let field: StructureLayoutField =
+            match parse_structure_layout_member(&name, field_options)? {
+                StructureLayoutMember::Field(field) => field,
+                StructureLayoutMember::Sequence(sequence) => {
+                    let mut field: StructureLayoutField = sequence.element;
+                    field.number_of_elements = sequence.number_of_elements;
+                    field
+                }
+                _ => {
+                    return Err(ParseError::new(format!(
+                        "Unsupported data type of field: {}",
+                        field_options.name
+                    )));
+                }
+            };
         group.fields.push(field);
     }
     Ok(group)
diff --git a/keramics-layout-map/src/structure.rs b/keramics-layout-map/src/structure.rs
index a3be223..be9c259 100644
--- a/keramics-layout-map/src/structure.rs
+++ b/keramics-layout-map/src/structure.rs
@@ -179,6 +179,9 @@ pub(crate) struct StructureLayoutField {
 
     /// Format.
     pub format: Format,
+
+    /// Number of elements, used for a field in a group.
+    pub number_of_elements: usize,
 }
 
 impl StructureLayoutField {
@@ -196,6 +199,7 @@ impl StructureLayoutField {
             byte_order: byte_order,
             modifier: modifier.clone(),
             format: format,
+            number_of_elements: 1,
         }
     }
 
@@ -513,6 +517,14 @@ impl StructureLayoutField {
         }
     }
 
+    /// Determines if the field is a sequence.
+    pub fn is_sequence(&self) -> bool {
+        match self.data_type {
+            DataType::ByteString | DataType::Ucs2String | DataType::Utf16String => true,
+            _ => self.number_of_elements != 1,
+        }
+    }
+
     /// Determines if field requires a byte order.
     pub fn requires_byte_order(&self) -> bool {
         match self.data_type {
@@ -560,7 +572,7 @@ impl StructureLayoutGroup {
                 Some(byte_size) => byte_size,
                 None => panic!("Unable to determine byte size of field: {}", field.name),
             };
-            data_size += byte_size;
+            data_size += byte_size * field.number_of_elements;
         }
         data_size
     }
@@ -708,11 +720,19 @@ impl StructureLayout {
                 Some(byte_size) => byte_size,
                 None => panic!("Unable to determine byte size of field: {}", field.name),
             };
-            let debug_read_field: TokenStream =
-                field.get_debug_read(&byte_order, value_data_size, data_offset);
+            let debug_read_field: TokenStream = if field.is_sequence() {
+                field.get_debug_read_sequence(
+                    &byte_order,
+                    data_offset,
+                    value_data_size,
+                    field.number_of_elements,
+                )
+            } else {
+                field.get_debug_read(&byte_order, value_data_size, data_offset)
+            };
             debug_read_fields.extend(debug_read_field);
 
-            data_offset += value_data_size;
+            data_offset += value_data_size * field.number_of_elements;
         }
         let group_condition: TokenStream = group.get_condition_token_stream();
         quote! {
-- 
2.43.0


From 137c38a8f639b24ad2f688997e1229529fac4add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:25 +0000
Subject: [PATCH 028/148] fix: layout of a structure without its own byte order
 is refused

---
 keramics-layout-map/src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keramics-layout-map/src/macros.rs b/keramics-layout-map/src/macros.rs
index 3169a29..3aaeb77 100644
--- a/keramics-layout-map/src/macros.rs
+++ b/keramics-layout-map/src/macros.rs
@@ -278,7 +278,7 @@ struct StructureOptions {
 impl StructureOptions {
     /// Determines if the options are empty.
     pub fn is_empty(&self) -> bool {
-        return self.byte_order.is_empty() && (self.fields.len() == 0 || self.members.len() == 0);
+        return self.byte_order.is_empty() && self.fields.len() == 0 && self.members.len() == 0;
     }
 
     /// Parses the byte order.
-- 
2.43.0


From ad1c58b5b822dbdf36e051c90a46be338696c208 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:43:33 +0000
Subject: [PATCH 029/148] fix: block tree refuses or loses ranges of other
 sizes than the first

---
 keramics-formats/src/block_tree.rs      |  77 ++++++++--------
 keramics-formats/src/block_tree_node.rs | 118 +++++++++++++-----------
 2 files changed, 105 insertions(+), 90 deletions(-)

diff --git a/keramics-formats/src/block_tree.rs b/keramics-formats/src/block_tree.rs
index 471af06..92dd787 100644
--- a/keramics-formats/src/block_tree.rs
+++ b/keramics-formats/src/block_tree.rs
@@ -43,7 +43,7 @@ impl<T> BlockTree<T> {
     }
 
     /// Creates the root node.
-    fn create_root_node(&mut self, size: u64) {
+    fn create_root_node(&mut self) {
         let mut element_size: u64 = self.leaf_value_size;
 
         if self.elements_per_node * element_size > self.leaf_value_size {
@@ -51,24 +51,11 @@ impl<T> BlockTree<T> {
                 element_size *= self.elements_per_node;
             }
         }
-        let elements_per_node: u64 = self.data_size.div_ceil(element_size);
-
-        let node_type: BlockTreeNodeType = if element_size <= size {
-            BlockTreeNodeType::Leaf
-        } else {
-            BlockTreeNodeType::Branch
-        };
-        let mut root_node: BlockTreeNode<T> = BlockTreeNode::<T>::new(&node_type, 0, element_size);
-
-        match node_type {
-            BlockTreeNodeType::Branch => {
-                root_node.sub_nodes = (0..elements_per_node).map(|_| None).collect();
-            }
-            BlockTreeNodeType::Leaf => {
-                root_node.values = (0..elements_per_node).map(|_| None).collect();
-            }
-        };
-        self.root_node = Some(root_node);
+        self.root_node = Some(BlockTreeNode::<T>::new(
+            &BlockTreeNodeType::Leaf,
+            0,
+            element_size,
+        ));
     }
 
     /// Retrieves a (leaf) value.
@@ -78,30 +65,34 @@ impl<T> BlockTree<T> {
         }
         let mut node: &BlockTreeNode<T> = self.root_node.as_ref().unwrap();
 
-        while node.node_type == BlockTreeNodeType::Branch {
-            let sub_node_index: u64 = (offset - node.offset) / node.element_size;
+        loop {
+            let element_index: usize = ((offset - node.offset) / node.element_size) as usize;
 
-            if node.sub_nodes[sub_node_index as usize].is_none() {
-                return None;
+            if let Some(Some(value)) = node.values.get(element_index) {
+                return Some(value);
+            }
+            match node.sub_nodes.get(element_index) {
+                Some(Some(sub_node)) => node = sub_node,
+                _ => return None,
             }
-            node = node.sub_nodes[sub_node_index as usize].as_ref().unwrap();
-        }
-        let value_index: usize = ((offset - node.offset) / node.element_size) as usize;
-
-        if value_index >= node.values.len() || node.values[value_index].is_none() {
-            return None;
         }
-        Some(node.values[value_index].as_ref().unwrap())
     }
 
     /// Inserts a (leaf) value.
     pub fn insert_value(&mut self, offset: u64, size: u64, value: T) -> Result<(), InsertError> {
-        if offset + size > self.data_size {
+        let end_offset: u64 = match offset.checked_add(size) {
+            Some(end_offset) => end_offset,
+            None => {
+                return Err(InsertError::new(format!(
+                    "Invalid range: {} of size: {} value out of bounds",
+                    offset, size
+                )));
+            }
+        };
+        if end_offset > self.data_size {
             return Err(InsertError::new(format!(
                 "Range: {} - {} exceeds data size: {}",
-                offset,
-                offset + size,
-                self.data_size
+                offset, end_offset, self.data_size
             )));
         }
         if offset % self.leaf_value_size != 0 {
@@ -116,16 +107,26 @@ impl<T> BlockTree<T> {
                 size, self.leaf_value_size
             )));
         }
+        if size == 0 {
+            return Ok(());
+        }
         if self.root_node.is_none() {
-            self.create_root_node(size);
+            self.create_root_node();
+        }
+        let root_node: &mut BlockTreeNode<T> = self.root_node.as_mut().unwrap();
+
+        if root_node.has_value_in_range(offset, end_offset) {
+            return Err(InsertError::new(format!("Leaf value already set")));
         }
-        let root_node: &mut BlockTreeNode<T> = &mut self.root_node.as_mut().unwrap();
+        let number_of_elements: u64 = self.data_size.div_ceil(root_node.element_size);
+
         root_node.insert_value(
+            number_of_elements,
             self.elements_per_node,
             self.leaf_value_size,
             offset,
-            size,
-            Arc::new(value),
+            end_offset,
+            &Arc::new(value),
         )
     }
 }
diff --git a/keramics-formats/src/block_tree_node.rs b/keramics-formats/src/block_tree_node.rs
index 9f0a6fe..ce27bb1 100644
--- a/keramics-formats/src/block_tree_node.rs
+++ b/keramics-formats/src/block_tree_node.rs
@@ -11,6 +11,7 @@
  * under the License.
  */
 
+use std::cmp::{max, min};
 use std::sync::Arc;
 
 use super::errors::InsertError;
@@ -52,71 +53,84 @@ impl<T> BlockTreeNode<T> {
         }
     }
 
-    /// Inserts a (leaf) value.
+    /// Determines if a range overlaps with a (leaf) value.
+    pub fn has_value_in_range(&self, offset: u64, end_offset: u64) -> bool {
+        let first_element_index: u64 = (offset - self.offset) / self.element_size;
+        let end_element_index: u64 = (end_offset - self.offset).div_ceil(self.element_size);
+
+        for element_index in first_element_index..end_element_index {
+            if let Some(Some(_)) = self.values.get(element_index as usize) {
+                return true;
+            }
+            if let Some(Some(sub_node)) = self.sub_nodes.get(element_index as usize) {
+                let element_offset: u64 = self.offset + (element_index * self.element_size);
+
+                if sub_node.has_value_in_range(
+                    max(offset, element_offset),
+                    min(end_offset, element_offset + self.element_size),
+                ) {
+                    return true;
+                }
+            }
+        }
+        false
+    }
+
+    /// Inserts a (leaf) value in a range that does not overlap with another (leaf) value.
     pub fn insert_value(
         &mut self,
+        number_of_elements: u64,
         elements_per_node: u64,
         leaf_value_size: u64,
         offset: u64,
-        size: u64,
-        value: Arc<T>,
+        end_offset: u64,
+        value: &Arc<T>,
     ) -> Result<(), InsertError> {
-        if self.node_type == BlockTreeNodeType::Branch {
-            if self.sub_nodes.len() == 0 {
-                self.sub_nodes = (0..elements_per_node).map(|_| None).collect();
-            }
-            let number_of_sub_nodex: u64 = size.div_ceil(self.element_size);
-            let first_sub_node_index: u64 = (offset - self.offset) / self.element_size;
-            let last_sub_node_index: u64 = first_sub_node_index + number_of_sub_nodex;
-
-            let mut sub_node_element_size: u64 = leaf_value_size;
+        let first_element_index: u64 = (offset - self.offset) / self.element_size;
+        let end_element_index: u64 = (end_offset - self.offset).div_ceil(self.element_size);
+
+        if end_element_index > number_of_elements {
+            return Err(InsertError::new(format!(
+                "Range: {} - {} exceeds number of node elements: {}",
+                offset, end_offset, number_of_elements
+            )));
+        }
+        for element_index in first_element_index..end_element_index {
+            let element_offset: u64 = self.offset + (element_index * self.element_size);
+            let element_end_offset: u64 = element_offset + self.element_size;
 
-            while self.element_size / sub_node_element_size > elements_per_node {
-                sub_node_element_size *= elements_per_node;
-            }
-            let sub_node_type: BlockTreeNodeType = if sub_node_element_size <= size {
-                BlockTreeNodeType::Leaf
+            if offset <= element_offset && element_end_offset <= end_offset {
+                if self.values.is_empty() {
+                    self.values = (0..number_of_elements).map(|_| None).collect();
+                }
+                self.values[element_index as usize] = Some(value.clone());
             } else {
-                BlockTreeNodeType::Branch
-            };
-            let mut sub_node_offset: u64 = self.offset + (first_sub_node_index * self.element_size);
-
-            for sub_node_index in first_sub_node_index..last_sub_node_index {
-                if self.sub_nodes[sub_node_index as usize].is_none() {
-                    let sub_node: BlockTreeNode<T> =
-                        BlockTreeNode::new(&sub_node_type, sub_node_offset, sub_node_element_size);
-                    self.sub_nodes[sub_node_index as usize] = Some(sub_node);
+                // The range covers only part of the element.
+                if self.sub_nodes.is_empty() {
+                    self.node_type = BlockTreeNodeType::Branch;
+                    self.sub_nodes = (0..number_of_elements).map(|_| None).collect();
                 }
-                let sub_node: &mut BlockTreeNode<T> =
-                    &mut self.sub_nodes[sub_node_index as usize].as_mut().unwrap();
+                let mut sub_node_element_size: u64 = leaf_value_size;
+
+                while self.element_size / sub_node_element_size > elements_per_node {
+                    sub_node_element_size *= elements_per_node;
+                }
+                let sub_node: &mut BlockTreeNode<T> = self.sub_nodes[element_index as usize]
+                    .get_or_insert_with(|| {
+                        BlockTreeNode::new(
+                            &BlockTreeNodeType::Leaf,
+                            element_offset,
+                            sub_node_element_size,
+                        )
+                    });
                 sub_node.insert_value(
+                    elements_per_node,
                     elements_per_node,
                     leaf_value_size,
-                    offset,
-                    size,
-                    value.clone(),
+                    max(offset, element_offset),
+                    min(end_offset, element_end_offset),
+                    value,
                 )?;
-                sub_node_offset += self.element_size;
-            }
-        } else {
-            if size % self.element_size != 0 {
-                return Err(InsertError::new(format!(
-                    "Size: {} not a multitude of node element size: {}",
-                    size, self.element_size
-                )));
-            }
-            if self.values.len() == 0 {
-                self.values = (0..elements_per_node).map(|_| None).collect();
-            }
-            let number_of_values: u64 = size / self.element_size;
-            let first_value_index: u64 = (offset - self.offset) / self.element_size;
-            let last_value_index: u64 = first_value_index + number_of_values;
-
-            for value_index in first_value_index..last_value_index {
-                if self.values[value_index as usize].is_some() {
-                    return Err(InsertError::new(format!("Leaf value already set")));
-                }
-                self.values[value_index as usize] = Some(value.clone());
             }
         }
         Ok(())
-- 
2.43.0


From 0c3e95a740640a0c5cc4c6ebd1b21b809eadd9bf Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:43:33 +0000
Subject: [PATCH 030/148] fix: cache counts a key that is inserted again twice
 and panics without capacity

---
 keramics-formats/src/lru_cache.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/keramics-formats/src/lru_cache.rs b/keramics-formats/src/lru_cache.rs
index f59d9b9..babc263 100644
--- a/keramics-formats/src/lru_cache.rs
+++ b/keramics-formats/src/lru_cache.rs
@@ -72,9 +72,15 @@ impl<K: Hash + Eq + Copy, V> LruCache<K, V> {
 
     /// Inserts a specific value into the cache.
     pub fn insert(&mut self, key: K, value: V) {
-        if self.usage.len() == self.number_of_entries {
-            let lru_key: K = self.usage.pop_front().unwrap();
-            self.values.remove(&lru_key);
+        if self.number_of_entries == 0 {
+            return;
+        }
+        if self.values.contains_key(&key) {
+            self.usage.retain(|usage_key| *usage_key != key);
+        } else if self.usage.len() == self.number_of_entries {
+            if let Some(lru_key) = self.usage.pop_front() {
+                self.values.remove(&lru_key);
+            }
         }
         let entry: LruCacheEntry<V> = LruCacheEntry::new(value);
         self.values.insert(key, entry);
-- 
2.43.0


From d10f39d6764e4552ec2c3842ab5e1cf1061c55f0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:43:52 +0000
Subject: [PATCH 031/148] Verification hook: guarded access to block tree and
 cache

---
 keramics-formats/src/lib.rs   |  5 +++
 keramics-formats/src/verif.rs | 62 +++++++++++++++++++++++++++++++++++
 2 files changed, 67 insertions(+)
 create mode 100644 keramics-formats/src/verif.rs

diff --git a/keramics-formats/src/lib.rs b/keramics-formats/src/lib.rs
index 0e3da70..3f1c11f 100644
--- a/keramics-formats/src/lib.rs
+++ b/keramics-formats/src/lib.rs
@@ -44,6 +44,11 @@ pub mod ext;
 pub mod fat;
 pub mod ntfs;
 
+// Access of the verification harness to private modules.
+#[allow(unexpected_cfgs)]
+#[cfg(keramics_verif)]
+pub mod verif;
+
 pub use enums::FormatIdentifier;
 pub use file_resolver::{FileResolver, FileResolverReference};
 pub use os_file_resolver::{OsFileResolver, open_os_file_resolver};
diff --git a/keramics-formats/src/verif.rs b/keramics-formats/src/verif.rs
new file mode 100644
index 0000000..c8ecbf0
--- /dev/null
+++ b/keramics-formats/src/verif.rs
@@ -0,0 +1,62 @@
+//! Access of the verification harness to private modules, only with --cfg keramics_verif.
+
+use crate::block_tree::BlockTree;
+use crate::lru_cache::LruCache;
+
+/// Block tree with numbers as values.
+pub struct VerifBlockTree {
+    tree: BlockTree<u64>,
+}
+
+impl VerifBlockTree {
+    pub fn new(data_size: u64, elements_per_node: u64, leaf_value_size: u64) -> Self {
+        Self {
+            tree: BlockTree::<u64>::new(data_size, elements_per_node, leaf_value_size),
+        }
+    }
+
+    pub fn insert(&mut self, offset: u64, size: u64, value: u64) -> Result<(), String> {
+        self.tree
+            .insert_value(offset, size, value)
+            .map_err(|error| error.to_string())
+    }
+
+    pub fn get(&self, offset: u64) -> Option<u64> {
+        self.tree.get_value(offset).copied()
+    }
+}
+
+/// Cache with numbers as keys and values.
+pub struct VerifLruCache {
+    cache: LruCache<u64, u64>,
+}
+
+impl VerifLruCache {
+    pub fn new(number_of_entries: usize) -> Self {
+        Self {
+            cache: LruCache::new(number_of_entries),
+        }
+    }
+
+    pub fn insert(&mut self, key: u64, value: u64) {
+        self.cache.insert(key, value);
+    }
+
+    pub fn contains(&self, key: u64) -> bool {
+        self.cache.contains(&key)
+    }
+
+    pub fn get(&mut self, key: u64) -> Option<u64> {
+        self.cache.get(&key).copied()
+    }
+
+    pub fn set(&mut self, key: u64, value: u64) -> bool {
+        match self.cache.get_mut(&key) {
+            Some(entry) => {
+                *entry = value;
+                true
+            }
+            None => false,
+        }
+    }
+}
-- 
2.43.0


From 37f575ecf317afd65838f5420cdaf8c30265b0b5 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:44:58 +0000
Subject: [PATCH 032/148] fix: VHD media size is the original instead of the
 current size

---
 keramics-formats/src/vhd/file_footer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keramics-formats/src/vhd/file_footer.rs b/keramics-formats/src/vhd/file_footer.rs
index 993b73d..15e6c07 100644
--- a/keramics-formats/src/vhd/file_footer.rs
+++ b/keramics-formats/src/vhd/file_footer.rs
@@ -92,7 +92,7 @@ impl VhdFileFooter {
             )));
         }
         self.next_offset = bytes_to_u64_be!(data, 16);
-        self.data_size = bytes_to_u64_be!(data, 40);
+        self.data_size = bytes_to_u64_be!(data, 48);
         self.disk_type = bytes_to_u32_be!(data, 60);
         self.identifier = Uuid::from_be_bytes(&data[68..84]);
 
-- 
2.43.0


From 9dc5f722516678bed586fd4841c388dacd4b25e0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:44:58 +0000
Subject: [PATCH 033/148] fix: bits of a VHD sector bitmap are read in reverse
 order

---
 keramics-formats/src/vhd/sector_bitmap.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/keramics-formats/src/vhd/sector_bitmap.rs b/keramics-formats/src/vhd/sector_bitmap.rs
index 366ea4d..e8cdb8e 100644
--- a/keramics-formats/src/vhd/sector_bitmap.rs
+++ b/keramics-formats/src/vhd/sector_bitmap.rs
@@ -70,9 +70,9 @@ impl VhdSectorBitmap {
         for data_offset in 0..data.len() {
             let mut byte_value: u8 = data[data_offset];
 
-            for _ in (0..8).rev() {
-                let bit_value: u8 = byte_value & 0x01;
-                byte_value >>= 1;
+            for _ in 0..8 {
+                let bit_value: u8 = byte_value >> 7;
+                byte_value <<= 1;
 
                 if bit_value != range_bit_value {
                     self.ranges.push(VhdSectorBitmapRange::new(
-- 
2.43.0


From b93d47473dcd56f4f87b52e75c06483fc94a4215 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:44:58 +0000
Subject: [PATCH 034/148] fix: VHD images with blocks of less sectors than bits
 in the sector bitmap cannot be read

---
 keramics-formats/src/vhd/file.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/keramics-formats/src/vhd/file.rs b/keramics-formats/src/vhd/file.rs
index d70d0d0..538de4c 100644
--- a/keramics-formats/src/vhd/file.rs
+++ b/keramics-formats/src/vhd/file.rs
@@ -11,6 +11,7 @@
  * under the License.
  */
 
+use std::cmp::min;
 use std::io::SeekFrom;
 use std::sync::{Arc, RwLock};
 
@@ -185,7 +186,7 @@ impl VhdFile {
                 self.parent_name = Some(dynamic_disk_header.parent_name);
             }
             let sectors_ber_block: u32 = dynamic_disk_header.block_size / 512;
-            self.sector_bitmap_size = (sectors_ber_block / 8).div_ceil(512) * 512;
+            self.sector_bitmap_size = sectors_ber_block.div_ceil(8).div_ceil(512) * 512;
 
             self.block_allocation_table = Some(VhdBlockAllocationTable::new(
                 dynamic_disk_header.block_table_offset,
@@ -291,32 +292,37 @@ impl VhdFile {
         let mut range_media_offset: u64 = block_number * (self.block_size as u64);
         let mut range_data_offset: u64 = sector_bitmap_offset + (self.sector_bitmap_size as u64);
 
+        let block_end_offset: u64 = range_media_offset + (self.block_size as u64);
+
         for bitmap_range in sector_bitmap.ranges.iter() {
+            // The sector bitmap can contain more bits than there are sectors in the block.
+            let range_size: u64 = min(bitmap_range.size, block_end_offset - range_media_offset);
+
             let block_range: VhdBlockRange = if bitmap_range.is_set {
                 VhdBlockRange::new(
                     range_media_offset,
                     range_data_offset,
-                    bitmap_range.size,
+                    range_size,
                     VhdBlockRangeType::InFile,
                 )
             } else if self.disk_type == VhdDiskType::Dynamic {
                 VhdBlockRange::new(
                     range_media_offset,
                     0,
-                    bitmap_range.size,
+                    range_size,
                     VhdBlockRangeType::Sparse,
                 )
             } else {
                 VhdBlockRange::new(
                     range_media_offset,
                     0,
-                    bitmap_range.size,
+                    range_size,
                     VhdBlockRangeType::InParent,
                 )
             };
             match self
                 .block_tree
-                .insert_value(range_media_offset, bitmap_range.size, block_range)
+                .insert_value(range_media_offset, range_size, block_range)
             {
                 Ok(_) => {}
                 Err(error) => {
@@ -326,8 +332,8 @@ impl VhdFile {
                     ));
                 }
             };
-            range_media_offset += bitmap_range.size;
-            range_data_offset += bitmap_range.size;
+            range_media_offset += range_size;
+            range_data_offset += range_size;
         }
         Ok(())
     }
-- 
2.43.0


From 792f17e5bdfe7f7de0652945941895ab082c875a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:44:58 +0000
Subject: [PATCH 035/148] fix: VHD reads across multiple ranges of a block use
 the wrong block

---
 keramics-formats/src/vhd/file.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/keramics-formats/src/vhd/file.rs b/keramics-formats/src/vhd/file.rs
index 538de4c..ca44b59 100644
--- a/keramics-formats/src/vhd/file.rs
+++ b/keramics-formats/src/vhd/file.rs
@@ -343,7 +343,6 @@ impl VhdFile {
         let read_size: usize = data.len();
         let mut data_offset: usize = 0;
         let mut media_offset: u64 = self.media_offset;
-        let mut block_number: u64 = media_offset / (self.block_size as u64);
 
         while data_offset < read_size {
             if media_offset >= self.media_size {
@@ -353,6 +352,8 @@ impl VhdFile {
                 self.block_tree.get_value(media_offset);
 
             if block_tree_value.is_none() {
+                let block_number: u64 = media_offset / (self.block_size as u64);
+
                 match self.read_block_allocation_entry(block_number) {
                     Ok(_) => {}
                     Err(mut error) => {
@@ -423,8 +424,6 @@ impl VhdFile {
             }
             data_offset += range_read_count;
             media_offset += range_read_count as u64;
-
-            block_number += 1;
         }
         Ok(data_offset)
     }
-- 
2.43.0


From c9d449da507f231bc28d359e7cd39a644c72fc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:13 +0000
Subject: [PATCH 036/148] fix: VHDX reads across multiple ranges of a block use
 the wrong block

---
 keramics-formats/src/vhdx/file.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/keramics-formats/src/vhdx/file.rs b/keramics-formats/src/vhdx/file.rs
index fb176b7..5175703 100644
--- a/keramics-formats/src/vhdx/file.rs
+++ b/keramics-formats/src/vhdx/file.rs
@@ -717,7 +717,6 @@ impl VhdxFile {
         let read_size: usize = data.len();
         let mut data_offset: usize = 0;
         let mut media_offset: u64 = self.media_offset;
-        let mut block_number: u64 = media_offset / (self.block_size as u64);
 
         while data_offset < read_size {
             if media_offset >= self.media_size {
@@ -727,6 +726,8 @@ impl VhdxFile {
                 self.block_tree.get_value(media_offset);
 
             if block_tree_value.is_none() {
+                let block_number: u64 = media_offset / (self.block_size as u64);
+
                 match self.read_block_allocation_entry(block_number) {
                     Ok(_) => {}
                     Err(mut error) => {
@@ -797,8 +798,6 @@ impl VhdxFile {
             }
             data_offset += range_read_count;
             media_offset += range_read_count as u64;
-
-            block_number += 1;
         }
         Ok(data_offset)
     }
-- 
2.43.0


From aa8016f703fa975063fdb2758e223ac178502c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:13 +0000
Subject: [PATCH 037/148] fix: fixed and dynamic VHDX images are taken for each
 other

Flag 0x1 (blocks remain allocated) marks a fixed-size image. The image without it was read as if
its block allocation table had no sector bitmap entries, hence wrong beyond the first chunk.
---
 keramics-formats/src/vhdx/file.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/keramics-formats/src/vhdx/file.rs b/keramics-formats/src/vhdx/file.rs
index 5175703..4fd5eb1 100644
--- a/keramics-formats/src/vhdx/file.rs
+++ b/keramics-formats/src/vhdx/file.rs
@@ -314,8 +314,8 @@ impl VhdxFile {
 
                 self.block_size = bytes_to_u32_le!(data, 0);
                 self.disk_type = match file_parameters_flags & 0x00000003 {
-                    0 => VhdxDiskType::Fixed,
-                    1 => VhdxDiskType::Dynamic,
+                    0 => VhdxDiskType::Dynamic,
+                    1 => VhdxDiskType::Fixed,
                     2 => VhdxDiskType::Differential,
                     _ => VhdxDiskType::Unknown,
                 };
@@ -570,12 +570,11 @@ impl VhdxFile {
                 return Err(keramics_core::error_trace_new!("Missing data stream"));
             }
         };
-        let table_entry: u64 = if self.disk_type == VhdxDiskType::Fixed {
-            block_number
-        } else {
-            ((block_number / self.entries_per_chunk) * (self.entries_per_chunk + 1))
-                + (block_number % self.entries_per_chunk)
-        };
+        // Note that every chunk is followed by a sector bitmap entry, also when it is not used.
+        let table_entry: u64 = ((block_number / self.entries_per_chunk)
+            * (self.entries_per_chunk + 1))
+            + (block_number % self.entries_per_chunk);
+
         let block_allocation_table: &VhdxBlockAllocationTable =
             self.block_allocation_table.as_ref().unwrap();
 
-- 
2.43.0


From 9a1b63188d44591e7f26f71c3e4b419642db842b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:13 +0000
Subject: [PATCH 038/148] fix: VHDX blocks that are not partially present are
 read through the sector bitmap

---
 keramics-formats/src/vhdx/file.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/keramics-formats/src/vhdx/file.rs b/keramics-formats/src/vhdx/file.rs
index 4fd5eb1..9619596 100644
--- a/keramics-formats/src/vhdx/file.rs
+++ b/keramics-formats/src/vhdx/file.rs
@@ -589,7 +589,7 @@ impl VhdxFile {
                     return Err(error);
                 }
             };
-        if self.disk_type == VhdxDiskType::Differential && entry.block_state != 6 {
+        if self.disk_type == VhdxDiskType::Differential && entry.block_state == 7 {
             match self.read_sector_bitmap(block_number, entry.block_offset) {
                 Ok(_) => {}
                 Err(mut error) => {
@@ -600,7 +600,16 @@ impl VhdxFile {
         } else {
             let block_media_offset: u64 = block_number * (self.block_size as u64);
 
-            let block_range: VhdxBlockRange = if entry.block_state < 6 {
+            let block_range: VhdxBlockRange = if self.disk_type == VhdxDiskType::Differential
+                && entry.block_state == 0
+            {
+                VhdxBlockRange::new(
+                    block_media_offset,
+                    0,
+                    self.block_size as u64,
+                    VhdxBlockRangeType::InParent,
+                )
+            } else if entry.block_state < 6 {
                 VhdxBlockRange::new(
                     block_media_offset,
                     0,
-- 
2.43.0


From 55306e9671071c3ac6196817832273b89aa74df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:13 +0000
Subject: [PATCH 039/148] fix: VHDX images with one damaged image header or
 region table cannot be read

---
 keramics-formats/src/vhdx/file.rs | 75 ++++++++++++++++---------------
 1 file changed, 39 insertions(+), 36 deletions(-)

diff --git a/keramics-formats/src/vhdx/file.rs b/keramics-formats/src/vhdx/file.rs
index 9619596..4203e09 100644
--- a/keramics-formats/src/vhdx/file.rs
+++ b/keramics-formats/src/vhdx/file.rs
@@ -157,56 +157,59 @@ impl VhdxFile {
         }
         let mut primary_image_header: VhdxImageHeader = VhdxImageHeader::new();
 
-        match primary_image_header.read_at_position(data_stream, SeekFrom::Start(65536)) {
-            Ok(_) => {}
-            Err(mut error) => {
-                keramics_core::error_trace_add_frame!(error, "Unable to read primary image header");
-                return Err(error);
-            }
-        }
+        let primary_image_header_result: Result<(), ErrorTrace> =
+            primary_image_header.read_at_position(data_stream, SeekFrom::Start(65536));
+
         let mut secondary_image_header: VhdxImageHeader = VhdxImageHeader::new();
 
-        match secondary_image_header.read_at_position(data_stream, SeekFrom::Start(2 * 65536)) {
-            Ok(_) => {}
-            Err(mut error) => {
-                keramics_core::error_trace_add_frame!(
-                    error,
-                    "Unable to read secondary image header"
-                );
-                return Err(error);
-            }
-        }
-        if primary_image_header.sequence_number > secondary_image_header.sequence_number {
+        let secondary_image_header_result: Result<(), ErrorTrace> =
+            secondary_image_header.read_at_position(data_stream, SeekFrom::Start(2 * 65536));
+
+        // The active image header is the valid one with the highest sequence number.
+        let use_primary_image_header: bool =
+            match (primary_image_header_result, secondary_image_header_result) {
+                (Ok(_), Ok(_)) => {
+                    primary_image_header.sequence_number > secondary_image_header.sequence_number
+                }
+                (Ok(_), Err(_)) => true,
+                (Err(_), Ok(_)) => false,
+                (Err(mut error), Err(_)) => {
+                    keramics_core::error_trace_add_frame!(
+                        error,
+                        "Unable to read primary or secondary image header"
+                    );
+                    return Err(error);
+                }
+            };
+        if use_primary_image_header {
             self.identifier = primary_image_header.data_write_identifier;
             self.format_version = primary_image_header.format_version;
         } else {
             self.identifier = secondary_image_header.data_write_identifier;
             self.format_version = secondary_image_header.format_version;
         }
-        let mut primary_region_table: VhdxRegionTable = VhdxRegionTable::new();
+        let mut region_table: VhdxRegionTable = VhdxRegionTable::new();
 
-        match primary_region_table.read_at_position(data_stream, SeekFrom::Start(3 * 65536)) {
+        match region_table.read_at_position(data_stream, SeekFrom::Start(3 * 65536)) {
             Ok(_) => {}
-            Err(mut error) => {
-                keramics_core::error_trace_add_frame!(error, "Unable to read primary region table");
-                return Err(error);
-            }
-        }
-        let mut secondary_region_table: VhdxRegionTable = VhdxRegionTable::new();
+            Err(_) => {
+                region_table = VhdxRegionTable::new();
 
-        match secondary_region_table.read_at_position(data_stream, SeekFrom::Start(4 * 65536)) {
-            Ok(_) => {}
-            Err(mut error) => {
-                keramics_core::error_trace_add_frame!(
-                    error,
-                    "Unable to read secondary region table"
-                );
-                return Err(error);
+                match region_table.read_at_position(data_stream, SeekFrom::Start(4 * 65536)) {
+                    Ok(_) => {}
+                    Err(mut error) => {
+                        keramics_core::error_trace_add_frame!(
+                            error,
+                            "Unable to read primary or secondary region table"
+                        );
+                        return Err(error);
+                    }
+                }
             }
         }
         // TODO: compare primary region table with secondary
 
-        let metadata_region: &VhdxRegionTableEntry = match primary_region_table
+        let metadata_region: &VhdxRegionTableEntry = match region_table
             .entries
             .get(&VHDX_METADATA_REGION_IDENTIFIER)
         {
@@ -230,7 +233,7 @@ impl VhdxFile {
                 return Err(error);
             }
         }
-        let block_allocation_table_region: &VhdxRegionTableEntry = match primary_region_table
+        let block_allocation_table_region: &VhdxRegionTableEntry = match region_table
             .entries
             .get(&VHDX_BLOCK_ALLOCATION_TABLE_REGION_IDENTIFIER)
         {
-- 
2.43.0


From f832747ab0ceab973e4871ca56535ac4f6b4e92f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:13:12 +0000
Subject: [PATCH 040/148] fix: QCOW level 1 table entries without level 2 table
 hide the backing file or exceed the media size

---
 keramics-formats/src/qcow/file.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/keramics-formats/src/qcow/file.rs b/keramics-formats/src/qcow/file.rs
index 1697fcc..db0bd69 100644
--- a/keramics-formats/src/qcow/file.rs
+++ b/keramics-formats/src/qcow/file.rs
@@ -11,6 +11,7 @@
  * under the License.
  */
 
+use std::cmp::min;
 use std::io::SeekFrom;
 use std::sync::{Arc, RwLock};
 
@@ -345,14 +346,20 @@ impl QcowFile {
         let level2_table_offset: u64 = level1_entry.reference & self.offset_bit_mask;
 
         if level2_table_offset == 0 {
-            let range_media_size: u64 = 1 << self.level1_index_bit_shift;
-
-            let block_range: QcowBlockRange = QcowBlockRange::new(
-                level1_media_offset,
-                0,
-                range_media_size,
-                QcowBlockRangeType::Sparse,
+            // Note that the range can exceed the media size.
+            let block_tree_data_size: u64 =
+                self.media_size.div_ceil(self.cluster_block_size) * self.cluster_block_size;
+            let range_media_size: u64 = min(
+                1 << self.level1_index_bit_shift,
+                block_tree_data_size - level1_media_offset,
             );
+            let range_type: QcowBlockRangeType = if self.backing_file_name.is_some() {
+                QcowBlockRangeType::InBackingFile
+            } else {
+                QcowBlockRangeType::Sparse
+            };
+            let block_range: QcowBlockRange =
+                QcowBlockRange::new(level1_media_offset, 0, range_media_size, range_type);
             match self
                 .block_tree
                 .insert_value(level1_media_offset, range_media_size, block_range)
-- 
2.43.0


From 4d961391cfe43d9265b7df85f88baedc65496f4d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:13:12 +0000
Subject: [PATCH 041/148] fix: QCOW reads past the end of a smaller backing
 file are cut short

---
 keramics-formats/src/qcow/file.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/keramics-formats/src/qcow/file.rs b/keramics-formats/src/qcow/file.rs
index db0bd69..46ef5f6 100644
--- a/keramics-formats/src/qcow/file.rs
+++ b/keramics-formats/src/qcow/file.rs
@@ -498,7 +498,14 @@ impl QcowFile {
                         &mut data[data_offset..data_end_offset],
                         SeekFrom::Start(media_offset)
                     );
-                    read_count
+                    // Note that the backing file can be smaller than the image.
+                    if read_count == 0 {
+                        data[data_offset..data_end_offset].fill(0);
+
+                        range_read_size
+                    } else {
+                        read_count
+                    }
                 }
                 QcowBlockRangeType::InFile => {
                     let data_stream: &DataStreamReference = match self.data_stream.as_ref() {
-- 
2.43.0


From b3f7e029c07580ee496ab4cff2575d7ce5f1e55f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:13:12 +0000
Subject: [PATCH 042/148] fix: QCOW version 3 clusters that read as zeros are
 not supported

---
 keramics-formats/src/qcow/file.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/keramics-formats/src/qcow/file.rs b/keramics-formats/src/qcow/file.rs
index 46ef5f6..d086ff1 100644
--- a/keramics-formats/src/qcow/file.rs
+++ b/keramics-formats/src/qcow/file.rs
@@ -395,15 +395,25 @@ impl QcowFile {
             };
             let level2_media_offset: u64 =
                 level1_media_offset + (level2_table_index * self.cluster_block_size);
-            let block_data_offset: u64 = level2_entry.reference & self.offset_bit_mask;
-            let range_type: QcowBlockRangeType = if block_data_offset == 0 {
+            let is_compressed: bool =
+                (level2_entry.reference & self.compression_flag_bit_mask) != 0;
+            let mut block_data_offset: u64 = level2_entry.reference & self.offset_bit_mask;
+            let mut is_zero: bool = false;
+
+            if self.format_version == 3 && !is_compressed {
+                is_zero = block_data_offset & 1 != 0;
+                block_data_offset &= !1;
+            }
+            let range_type: QcowBlockRangeType = if is_zero {
+                QcowBlockRangeType::Sparse
+            } else if block_data_offset == 0 {
                 if self.backing_file_name.is_some() {
                     QcowBlockRangeType::InBackingFile
                 } else {
                     QcowBlockRangeType::Sparse
                 }
             } else {
-                if (level2_entry.reference & self.compression_flag_bit_mask) == 0 {
+                if !is_compressed {
                     QcowBlockRangeType::InFile
                 } else {
                     if self.encryption_method != QcowEncryptionMethod::None {
-- 
2.43.0


From 16b986d53da5aaf0cf8f619206e73ba754142768 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:13:12 +0000
Subject: [PATCH 043/148] fix: QCOW file header extension is taken for the
 compression method

---
 keramics-formats/src/qcow/file_header_v3.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/keramics-formats/src/qcow/file_header_v3.rs b/keramics-formats/src/qcow/file_header_v3.rs
index 6b2a84e..525ffcd 100644
--- a/keramics-formats/src/qcow/file_header_v3.rs
+++ b/keramics-formats/src/qcow/file_header_v3.rs
@@ -94,7 +94,9 @@ impl QcowFileHeaderV3 {
         file_header.number_of_snapshots = bytes_to_u32_be!(data, 60);
         file_header.snapshots_offset = bytes_to_u64_be!(data, 64);
         file_header.header_size = bytes_to_u32_be!(data, 100);
-        file_header.compression_method = data[104];
+        if file_header.header_size > 104 {
+            file_header.compression_method = data[104];
+        }
 
         if file_header.number_of_cluster_block_bits <= 8
             || file_header.number_of_cluster_block_bits > 63
-- 
2.43.0


From 7b992c6b1b5dc6cbefffccca7fcbc4615b26394d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:13:40 +0000
Subject: [PATCH 044/148] fix: reads of compressed QCOW clusters panic

---
 keramics-formats/src/qcow/block_range.rs |  5 ++
 keramics-formats/src/qcow/file.rs        | 98 +++++++++++++++++++++++-
 2 files changed, 99 insertions(+), 4 deletions(-)

diff --git a/keramics-formats/src/qcow/block_range.rs b/keramics-formats/src/qcow/block_range.rs
index 60f8085..a8f3865 100644
--- a/keramics-formats/src/qcow/block_range.rs
+++ b/keramics-formats/src/qcow/block_range.rs
@@ -32,6 +32,9 @@ pub struct QcowBlockRange {
     /// Size.
     pub size: u64,
 
+    /// Compressed data size.
+    pub compressed_data_size: u64,
+
     /// Range type.
     pub range_type: QcowBlockRangeType,
 }
@@ -42,12 +45,14 @@ impl QcowBlockRange {
         media_offset: u64,
         data_offset: u64,
         size: u64,
+        compressed_data_size: u64,
         range_type: QcowBlockRangeType,
     ) -> Self {
         Self {
             media_offset: media_offset,
             data_offset: data_offset,
             size: size,
+            compressed_data_size: compressed_data_size,
             range_type: range_type,
         }
     }
diff --git a/keramics-formats/src/qcow/file.rs b/keramics-formats/src/qcow/file.rs
index d086ff1..0115d25 100644
--- a/keramics-formats/src/qcow/file.rs
+++ b/keramics-formats/src/qcow/file.rs
@@ -15,11 +15,13 @@ use std::cmp::min;
 use std::io::SeekFrom;
 use std::sync::{Arc, RwLock};
 
+use keramics_compression::DeflateContext;
 use keramics_core::mediator::{Mediator, MediatorReference};
 use keramics_core::{DataStream, DataStreamReference, ErrorTrace};
 use keramics_types::ByteString;
 
 use crate::block_tree::BlockTree;
+use crate::lru_cache::LruCache;
 
 use super::block_range::{QcowBlockRange, QcowBlockRangeType};
 use super::cluster_table::{QcowClusterTable, QcowClusterTableEntry};
@@ -85,6 +87,9 @@ pub struct QcowFile {
     /// Block tree.
     block_tree: BlockTree<QcowBlockRange>,
 
+    /// Block cache.
+    block_cache: LruCache<u64, Vec<u8>>,
+
     /// Backing file name.
     backing_file_name: Option<ByteString>,
 
@@ -121,6 +126,7 @@ impl QcowFile {
             compression_method: QcowCompressionMethod::Zlib,
             encryption_method: QcowEncryptionMethod::None,
             block_tree: BlockTree::<QcowBlockRange>::new(0, 0, 0),
+            block_cache: LruCache::new(64),
             backing_file_name: None,
             backing_file: None,
             media_size: 0,
@@ -185,7 +191,7 @@ impl QcowFile {
         } else {
             self.offset_bit_mask = 0x3fffffffffffffff;
             self.compression_flag_bit_mask = 1 << 62;
-            self.compression_bit_shift = 62 - self.number_of_cluster_block_bits;
+            self.compression_bit_shift = 62 - (self.number_of_cluster_block_bits - 8);
         }
         self.level1_index_bit_shift =
             self.number_of_cluster_block_bits + file_header.number_of_level2_table_bits;
@@ -359,7 +365,7 @@ impl QcowFile {
                 QcowBlockRangeType::Sparse
             };
             let block_range: QcowBlockRange =
-                QcowBlockRange::new(level1_media_offset, 0, range_media_size, range_type);
+                QcowBlockRange::new(level1_media_offset, 0, range_media_size, 0, range_type);
             match self
                 .block_tree
                 .insert_value(level1_media_offset, range_media_size, block_range)
@@ -424,10 +430,23 @@ impl QcowFile {
                     QcowBlockRangeType::Compressed
                 }
             };
+            let mut compressed_data_size: u64 = 0;
+
+            if range_type == QcowBlockRangeType::Compressed {
+                compressed_data_size = block_data_offset >> self.compression_bit_shift;
+                block_data_offset &= self.compression_bit_mask;
+
+                // The size in version 2 and 3 is the number of additional sectors.
+                if self.format_version != 1 {
+                    compressed_data_size =
+                        ((compressed_data_size + 1) * 512) - (block_data_offset % 512);
+                }
+            }
             let block_range: QcowBlockRange = QcowBlockRange::new(
                 level2_media_offset,
                 block_data_offset,
                 self.cluster_block_size,
+                compressed_data_size,
                 range_type,
             );
             match self.block_tree.insert_value(
@@ -493,8 +512,37 @@ impl QcowFile {
             let data_end_offset: usize = data_offset + range_read_size;
             let range_read_count: usize = match block_range.range_type {
                 QcowBlockRangeType::Compressed => {
-                    // TODO: add compression support.
-                    todo!();
+                    let range_data_offset: usize = range_relative_offset as usize;
+                    let range_data_end_offset: usize = range_data_offset + range_read_size;
+
+                    if !self.block_cache.contains(&block_range.media_offset) {
+                        let mut data: Vec<u8> = vec![0; block_range.size as usize];
+
+                        match self.read_compressed_block(block_range, &mut data) {
+                            Ok(_) => {}
+                            Err(mut error) => {
+                                keramics_core::error_trace_add_frame!(
+                                    error,
+                                    "Unable to read compressed block"
+                                );
+                                return Err(error);
+                            }
+                        }
+                        self.block_cache.insert(block_range.media_offset, data);
+                    }
+                    let range_data: &Vec<u8> =
+                        match self.block_cache.get(&block_range.media_offset) {
+                            Some(data) => data,
+                            None => {
+                                return Err(keramics_core::error_trace_new!(
+                                    "Unable to retrieve data from cache"
+                                ));
+                            }
+                        };
+                    data[data_offset..data_end_offset]
+                        .copy_from_slice(&range_data[range_data_offset..range_data_end_offset]);
+
+                    range_read_size
                 }
                 QcowBlockRangeType::InBackingFile => {
                     let backing_file: &Arc<RwLock<QcowFile>> = match self.backing_file.as_ref() {
@@ -546,6 +594,48 @@ impl QcowFile {
         Ok(data_offset)
     }
 
+    /// Reads and decompresses a compressed cluster block.
+    fn read_compressed_block(
+        &self,
+        block_range: &QcowBlockRange,
+        data: &mut [u8],
+    ) -> Result<(), ErrorTrace> {
+        let data_stream: &DataStreamReference = match self.data_stream.as_ref() {
+            Some(data_stream) => data_stream,
+            None => {
+                return Err(keramics_core::error_trace_new!("Missing data stream"));
+            }
+        };
+        if self.compression_method != QcowCompressionMethod::Zlib {
+            return Err(keramics_core::error_trace_new!(
+                "Unsupported compression method"
+            ));
+        }
+        let mut compressed_data: Vec<u8> = vec![0; block_range.compressed_data_size as usize];
+
+        // Note that the last sector of the compressed data can be partially stored.
+        let read_count: usize = keramics_core::data_stream_read_at_position!(
+            data_stream,
+            &mut compressed_data,
+            SeekFrom::Start(block_range.data_offset)
+        );
+        let mut deflate_context: DeflateContext = DeflateContext::new();
+
+        match deflate_context.decompress(&compressed_data[..read_count], data) {
+            Ok(_) => {}
+            Err(mut error) => {
+                keramics_core::error_trace_add_frame!(error, "Unable to decompress DEFLATE data");
+                return Err(error);
+            }
+        }
+        if deflate_context.uncompressed_data_size != data.len() {
+            return Err(keramics_core::error_trace_new!(
+                "Invalid uncompressed data size value out of bounds"
+            ));
+        }
+        Ok(())
+    }
+
     /// Sets the backing file.
     pub fn set_backing_file(
         &mut self,
-- 
2.43.0


From ccc68cbd97e67591001c66c8b13d44c38bfde45f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:19:06 +0000
Subject: [PATCH 045/148] fix: operating system file resolver fails on a
 missing file instead of reporting it as absent

---
 keramics-formats/src/os_file_resolver.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/keramics-formats/src/os_file_resolver.rs b/keramics-formats/src/os_file_resolver.rs
index 3c0efa2..4629018 100644
--- a/keramics-formats/src/os_file_resolver.rs
+++ b/keramics-formats/src/os_file_resolver.rs
@@ -52,6 +52,10 @@ impl FileResolver for OsFileResolver {
                 }
             }
         }
+        match path_buf.try_exists() {
+            Ok(false) => return Ok(None),
+            _ => {}
+        }
         let data_stream: DataStreamReference = match open_os_data_stream(&path_buf) {
             Ok(data_stream) => data_stream,
             Err(error) => {
-- 
2.43.0


From 02d8b333517dbe8f6bb11331a82ad9914cdf2604 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:19:06 +0000
Subject: [PATCH 046/148] fix: sparse bundle bands that are missing or smaller
 than the band size cannot be read

---
 keramics-formats/src/sparsebundle/image.rs | 37 +++++++++++-----------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/keramics-formats/src/sparsebundle/image.rs b/keramics-formats/src/sparsebundle/image.rs
index 146e54a..50cb8ba 100644
--- a/keramics-formats/src/sparsebundle/image.rs
+++ b/keramics-formats/src/sparsebundle/image.rs
@@ -230,15 +230,6 @@ impl SparseBundleImage {
                         return Err(error);
                     }
                 };
-            let data_stream: DataStreamReference = match result {
-                Some(data_stream) => data_stream,
-                None => {
-                    return Err(keramics_core::error_trace_new!(format!(
-                        "No such bands file: {}",
-                        band_file_name
-                    )));
-                }
-            };
             let mut range_read_size: usize = read_size - data_offset;
 
             if (range_read_size as u64) > range_remainder_size {
@@ -246,16 +237,26 @@ impl SparseBundleImage {
             }
             let data_end_offset: usize = data_offset + range_read_size;
 
-            let read_count: usize = keramics_core::data_stream_read_at_position!(
-                data_stream,
-                &mut data[data_offset..data_end_offset],
-                SeekFrom::Start(range_relative_offset)
-            );
-            if read_count == 0 {
-                break;
+            // Note that a band file can be missing or smaller than the band size.
+            let mut read_count: usize = 0;
+
+            if let Some(data_stream) = result {
+                while read_count < range_read_size {
+                    let count: usize = keramics_core::data_stream_read_at_position!(
+                        data_stream,
+                        &mut data[data_offset + read_count..data_end_offset],
+                        SeekFrom::Start(range_relative_offset + read_count as u64)
+                    );
+                    if count == 0 {
+                        break;
+                    }
+                    read_count += count;
+                }
             }
-            data_offset += read_count;
-            media_offset += read_count as u64;
+            data[data_offset + read_count..data_end_offset].fill(0);
+
+            data_offset = data_end_offset;
+            media_offset += range_read_size as u64;
 
             block_number += 1;
             range_relative_offset = 0;
-- 
2.43.0


From 5d213e670efa337f99737f16bb5f3f4d0d3e9de3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:19:06 +0000
Subject: [PATCH 047/148] fix: sparse image band that is smaller than the band
 size cannot be read

---
 keramics-formats/src/sparseimage/file.rs | 34 ++++++++++++++----------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/keramics-formats/src/sparseimage/file.rs b/keramics-formats/src/sparseimage/file.rs
index ebb4240..d35197a 100644
--- a/keramics-formats/src/sparseimage/file.rs
+++ b/keramics-formats/src/sparseimage/file.rs
@@ -217,7 +217,7 @@ impl SparseImageFile {
             let block_tree_value: Option<&SparseImageBlockRange> =
                 self.block_tree.get_value(media_offset);
 
-            let range_read_count: usize = match block_tree_value {
+            match block_tree_value {
                 Some(block_range) => {
                     let data_stream: &DataStreamReference = match self.data_stream.as_ref() {
                         Some(data_stream) => data_stream,
@@ -225,24 +225,30 @@ impl SparseImageFile {
                             return Err(keramics_core::error_trace_new!("Missing data stream"));
                         }
                     };
-                    let read_count: usize = keramics_core::data_stream_read_at_position!(
-                        data_stream,
-                        &mut data[data_offset..data_end_offset],
-                        SeekFrom::Start(block_range.data_offset + range_relative_offset)
-                    );
-                    read_count
+                    // Note that the last band in the file can be smaller than the band size.
+                    let mut read_count: usize = 0;
+
+                    while read_count < range_read_size {
+                        let count: usize = keramics_core::data_stream_read_at_position!(
+                            data_stream,
+                            &mut data[data_offset + read_count..data_end_offset],
+                            SeekFrom::Start(
+                                block_range.data_offset + range_relative_offset + read_count as u64
+                            )
+                        );
+                        if count == 0 {
+                            break;
+                        }
+                        read_count += count;
+                    }
+                    data[data_offset + read_count..data_end_offset].fill(0);
                 }
                 None => {
                     data[data_offset..data_end_offset].fill(0);
-
-                    range_read_size
                 }
             };
-            if range_read_count == 0 {
-                break;
-            }
-            data_offset += range_read_count;
-            media_offset += range_read_count as u64;
+            data_offset = data_end_offset;
+            media_offset += range_read_size as u64;
 
             range_relative_offset = 0;
             range_remainder_size = self.block_size as u64;
-- 
2.43.0


From 61e1f8ea433ebeb2ba0e132119e3305da33762e0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:35:48 +0000
Subject: [PATCH 048/148] fix: deflate blocks without distance codes cannot be
 decompressed

A block that consists of literals only has a single distance code of zero
bits (RFC 1951 section 3.2.7).
---
 keramics-compression/src/deflate.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/keramics-compression/src/deflate.rs b/keramics-compression/src/deflate.rs
index dabcfbe..abfdfaa 100644
--- a/keramics-compression/src/deflate.rs
+++ b/keramics-compression/src/deflate.rs
@@ -400,8 +400,12 @@ impl DeflateContext {
             ));
         }
         literals_huffman_tree.build(&code_sizes[0..number_of_literal_codes])?;
-        distances_huffman_tree.build(&code_sizes[number_of_literal_codes..number_of_codes])?;
+        // Note that a block that consists of literals only can have no distance codes.
+        let distance_code_sizes: &[u8] = &code_sizes[number_of_literal_codes..number_of_codes];
 
+        if distance_code_sizes.iter().any(|code_size| *code_size != 0) {
+            distances_huffman_tree.build(distance_code_sizes)?;
+        }
         Ok(())
     }
 
-- 
2.43.0


From f94b0d215428d9ee7ff48f9533d34ed42d43b76d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 049/148] fix: truncated deflate data is decompressed to other
 data

Bits after the end of the compressed data were read as 0 and data without a
last block was accepted.
---
 keramics-compression/src/deflate.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/keramics-compression/src/deflate.rs b/keramics-compression/src/deflate.rs
index abfdfaa..3c1059b 100644
--- a/keramics-compression/src/deflate.rs
+++ b/keramics-compression/src/deflate.rs
@@ -74,6 +74,9 @@ pub(super) struct DeflateBitstream<'a> {
 
     /// Number of bits in the bits buffer.
     pub number_of_bits: usize,
+
+    /// Value to indicate bits were read after the end of the data.
+    read_after_end: bool,
 }
 
 impl<'a> DeflateBitstream<'a> {
@@ -86,6 +89,7 @@ impl<'a> DeflateBitstream<'a> {
             data_size: data_size,
             bits: 0,
             number_of_bits: 0,
+            read_after_end: false,
         }
     }
 
@@ -131,6 +135,8 @@ impl<'a> DeflateBitstream<'a> {
             if self.data_offset < self.data_size {
                 self.bits |= (self.data[self.data_offset] as u32) << self.number_of_bits;
                 self.data_offset += 1;
+            } else {
+                self.read_after_end = true;
             }
             self.number_of_bits += 8;
         }
@@ -455,7 +461,7 @@ impl DeflateContext {
         let mut uncompressed_data_offset: usize = 0;
         let uncompressed_data_size: usize = uncompressed_data.len();
 
-        while bitstream.data_offset < bitstream.data_size {
+        loop {
             let mut block_header: DeflateBlockHeader = DeflateBlockHeader::new();
             block_header.read_from_bitstream(bitstream)?;
 
@@ -522,6 +528,11 @@ impl DeflateContext {
                     return Err(keramics_core::error_trace_new!("Unsupported block type"));
                 }
             }
+            if bitstream.read_after_end {
+                return Err(keramics_core::error_trace_new!(
+                    "Invalid compressed data value too small"
+                ));
+            }
             if block_header.last_block_flag != 0 {
                 break;
             }
-- 
2.43.0


From a4e3915184137b430aebbe4f3189323caf47dac3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:36:36 +0000
Subject: [PATCH 050/148] fix: checksum of zlib data is not verified

The checksum was ignored when no data follows it and compared with that of
the whole output buffer otherwise. The check bits of the header were ignored.
---
 keramics-compression/src/zlib.rs | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/keramics-compression/src/zlib.rs b/keramics-compression/src/zlib.rs
index 5c250cf..adceab4 100644
--- a/keramics-compression/src/zlib.rs
+++ b/keramics-compression/src/zlib.rs
@@ -101,6 +101,11 @@ impl ZlibDataHeader {
 
         let flags: u8 = data[1];
 
+        if (((compression_data as u16) << 8) | (flags as u16)) % 31 != 0 {
+            return Err(keramics_core::error_trace_new!(
+                "Mismatch in zlib data header check bits"
+            ));
+        }
         if flags & 0x20 != 0 {
             if data.len() < 6 {
                 return Err(keramics_core::error_trace_new!(
@@ -160,19 +165,22 @@ impl ZlibContext {
 
         bitstream.unread_data();
 
-        if 4 < bitstream.data_size - bitstream.data_offset {
-            let stored_checksum: u32 = bytes_to_u32_be!(compressed_data, bitstream.data_offset);
+        if bitstream.data_size - bitstream.data_offset < 4 {
+            return Err(keramics_core::error_trace_new!(
+                "Invalid compressed data value too small"
+            ));
+        }
+        let stored_checksum: u32 = bytes_to_u32_be!(compressed_data, bitstream.data_offset);
 
-            let mut adler32_context: Adler32Context = Adler32Context::new(1);
-            adler32_context.update(uncompressed_data);
-            let calculated_checksum: u32 = adler32_context.finalize();
+        let mut adler32_context: Adler32Context = Adler32Context::new(1);
+        adler32_context.update(&uncompressed_data[0..deflate_context.uncompressed_data_size]);
+        let calculated_checksum: u32 = adler32_context.finalize();
 
-            if stored_checksum != calculated_checksum {
-                return Err(keramics_core::error_trace_new!(format!(
-                    "Mismatch between stored: 0x{:08x} and calculated: 0x{:08x} checksums",
-                    stored_checksum, calculated_checksum
-                )));
-            }
+        if stored_checksum != calculated_checksum {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Mismatch between stored: 0x{:08x} and calculated: 0x{:08x} checksums",
+                stored_checksum, calculated_checksum
+            )));
         }
         self.uncompressed_data_size = deflate_context.uncompressed_data_size;
 
-- 
2.43.0


From b1554ec055a68bb8707460f0e11d62ff7d5c0dd4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:36:42 +0000
Subject: [PATCH 051/148] fix: bzip2 blocks of more than 100000 bytes cannot be
 decompressed

The block size depends on the compression level. The origin pointer is
relative to the actual block data.
---
 keramics-compression/src/bzip2.rs | 38 ++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/keramics-compression/src/bzip2.rs b/keramics-compression/src/bzip2.rs
index db14796..8820afe 100644
--- a/keramics-compression/src/bzip2.rs
+++ b/keramics-compression/src/bzip2.rs
@@ -29,7 +29,7 @@ use super::traits::Bitstream;
 /// Bzip2 data header signature.
 pub(super) const BZIP2_DATA_HEADER_SIGNATURE: [u8; 2] = [0x42, 0x5a]; // BZ
 
-/// Bzip2 block size;
+/// Bzip2 block size, which is multiplied by the compression level.
 pub(super) const BZIP2_BLOCK_SIZE: usize = 100000;
 
 /// Bitstream for bzip2 compressed data.
@@ -149,12 +149,15 @@ impl<'a> Bitstream for Bzip2Bitstream<'a> {
     method(name = "debug_read_data")
 )]
 /// Stream header used by bzip2 compressed data.
-struct Bzip2StreamHeader {}
+struct Bzip2StreamHeader {
+    /// Block size.
+    block_size: usize,
+}
 
 impl Bzip2StreamHeader {
     /// Creates a new stream header.
     pub fn new() -> Self {
-        Self {}
+        Self { block_size: 0 }
     }
 
     /// Reads the stream header.
@@ -177,6 +180,8 @@ impl Bzip2StreamHeader {
                 compression_level as char
             )));
         }
+        self.block_size = ((compression_level - 0x30) as usize) * BZIP2_BLOCK_SIZE;
+
         Ok(())
     }
 }
@@ -254,6 +259,9 @@ pub struct Bzip2Context {
     /// Mediator.
     mediator: MediatorReference,
 
+    /// Block size.
+    block_size: usize,
+
     /// Uncompressed data size.
     pub uncompressed_data_size: usize,
 }
@@ -263,6 +271,7 @@ impl Bzip2Context {
     pub fn new() -> Self {
         Self {
             mediator: Mediator::current(),
+            block_size: 9 * BZIP2_BLOCK_SIZE,
             uncompressed_data_size: 0,
         }
     }
@@ -295,6 +304,8 @@ impl Bzip2Context {
         }
         data_header.read_data(compressed_data)?;
 
+        self.block_size = data_header.block_size;
+
         let mut bitstream: Bzip2Bitstream = Bzip2Bitstream::new(&compressed_data, 4);
         self.decompress_bitstream(&mut bitstream, uncompressed_data)?;
 
@@ -307,7 +318,7 @@ impl Bzip2Context {
         bitstream: &mut Bzip2Bitstream,
         uncompressed_data: &mut [u8],
     ) -> Result<(), ErrorTrace> {
-        let mut block_data: [u8; BZIP2_BLOCK_SIZE] = [0; BZIP2_BLOCK_SIZE];
+        let mut block_data: Vec<u8> = vec![0; self.block_size];
         let mut selectors: [u8; 32769] = [0; 32769]; // ( 1 << 15 ) + 1 = 32769
         let mut symbol_stack: [u8; 256] = [0; 256];
         let mut uncompressed_data_offset: usize = 0;
@@ -320,12 +331,6 @@ impl Bzip2Context {
             if block_header.signature == 0x177245385090 {
                 break;
             }
-            if (block_header.origin_pointer as usize) >= BZIP2_BLOCK_SIZE {
-                return Err(keramics_core::error_trace_new!(format!(
-                    "Invalid origin pointer: 0x{:06x} value out of bounds",
-                    block_header.origin_pointer
-                )));
-            }
             let number_of_symbols: usize = self.read_symbol_stack(bitstream, &mut symbol_stack)?;
             let number_of_trees: u32 = bitstream.get_value(3);
             let number_of_selectors: u32 = bitstream.get_value(15);
@@ -431,7 +436,7 @@ impl Bzip2Context {
                     self.mediator
                         .debug_print(format!("    0-byte run-length: {}\n", run_length,));
                 }
-                if (run_length as usize) > BZIP2_BLOCK_SIZE - block_data_offset {
+                if (run_length as usize) > block_data.len() - block_data_offset {
                     return Err(keramics_core::error_trace_new!(format!(
                         "Invalid run length: {} value out of bounds",
                         run_length
@@ -479,7 +484,7 @@ impl Bzip2Context {
                     self.mediator
                         .debug_print(format!("    symbol: {} (MTF: {})\n", symbol, stack_value));
                 }
-                if block_data_offset >= BZIP2_BLOCK_SIZE {
+                if block_data_offset >= block_data.len() {
                     return Err(keramics_core::error_trace_new!(format!(
                         "Invalid block data offset: {} value out of bounds",
                         block_data_offset
@@ -693,11 +698,18 @@ impl Bzip2Context {
         uncompressed_data_size: usize,
     ) -> Result<(), ErrorTrace> {
         let mut data_offset: usize = *uncompressed_data_offset;
+
+        if (origin_pointer as usize) >= block_data_size {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid origin pointer: 0x{:06x} value out of bounds",
+                origin_pointer
+            )));
+        }
         let mut distribution_value: usize = 0;
         let mut distributions: [usize; 256] = [0; 256];
         let mut last_byte_value: u8 = 0;
         let mut number_of_last_byte_values: u8 = 0;
-        let mut permutations: [usize; BZIP2_BLOCK_SIZE] = [0; BZIP2_BLOCK_SIZE];
+        let mut permutations: Vec<usize> = vec![0; block_data_size];
 
         for block_data_offset in 0..block_data_size {
             let byte_value: u8 = block_data[block_data_offset];
-- 
2.43.0


From 45b1394fa823da23556e05eff92b4180e130b802 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:36:42 +0000
Subject: [PATCH 052/148] fix: bzip2 data of multiple blocks cannot be
 decompressed

Every block has a checksum and the checksum of the stream is the combination
of those of the blocks.
---
 keramics-compression/src/bzip2.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/keramics-compression/src/bzip2.rs b/keramics-compression/src/bzip2.rs
index 8820afe..d1fcf74 100644
--- a/keramics-compression/src/bzip2.rs
+++ b/keramics-compression/src/bzip2.rs
@@ -324,6 +324,8 @@ impl Bzip2Context {
         let mut uncompressed_data_offset: usize = 0;
         let uncompressed_data_size: usize = uncompressed_data.len();
 
+        let mut stream_checksum: u32 = 0;
+
         let mut block_header: Bzip2BlockHeader = Bzip2BlockHeader::new();
         while bitstream.data_offset < bitstream.data_size {
             block_header.read_from_bitstream(bitstream)?;
@@ -372,6 +374,8 @@ impl Bzip2Context {
                 number_of_symbols,
                 &mut block_data,
             )?;
+            let block_start_offset: usize = uncompressed_data_offset;
+
             self.reverse_burrows_wheeler_transform(
                 &block_data,
                 block_data_size,
@@ -380,15 +384,22 @@ impl Bzip2Context {
                 &mut uncompressed_data_offset,
                 uncompressed_data_size,
             )?;
-        }
-        let mut crc32_context: Crc32Context = Crc32Context::new(0x04c11db7, 0);
-        crc32_context.update(&uncompressed_data[0..uncompressed_data_offset]);
-        let calculated_checksum: u32 = crc32_context.finalize();
+            let mut crc32_context: Crc32Context = Crc32Context::new(0x04c11db7, 0);
+            crc32_context.update(&uncompressed_data[block_start_offset..uncompressed_data_offset]);
+            let calculated_checksum: u32 = crc32_context.finalize();
 
-        if block_header.checksum != calculated_checksum {
+            if block_header.checksum != calculated_checksum {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Mismatch between stored: 0x{:08x} and calculated: 0x{:08x} bzip2 block checksums",
+                    block_header.checksum, calculated_checksum
+                )));
+            }
+            stream_checksum = stream_checksum.rotate_left(1) ^ calculated_checksum;
+        }
+        if block_header.checksum != stream_checksum {
             return Err(keramics_core::error_trace_new!(format!(
-                "Mismatch between stored: 0x{:08x} and calculated: 0x{:08x} bzip2 block checksums",
-                block_header.checksum, calculated_checksum
+                "Mismatch between stored: 0x{:08x} and calculated: 0x{:08x} bzip2 stream checksums",
+                block_header.checksum, stream_checksum
             )));
         }
         self.uncompressed_data_size = uncompressed_data_offset;
-- 
2.43.0


From e1b6ead0f8afa347973401faaaf5830229c4a7ec Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:37:01 +0000
Subject: [PATCH 053/148] fix: bzip2 Huffman codes of 20 bits cannot be read
 and invalid ones panic

---
 keramics-compression/src/bzip2.rs | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/keramics-compression/src/bzip2.rs b/keramics-compression/src/bzip2.rs
index d1fcf74..da80ead 100644
--- a/keramics-compression/src/bzip2.rs
+++ b/keramics-compression/src/bzip2.rs
@@ -542,7 +542,13 @@ impl Bzip2Context {
         let mut largest_code_size: u32 = code_size;
 
         for symbol_index in 0..number_of_symbols {
-            while code_size < 20 {
+            loop {
+                if code_size < 1 || code_size > 20 {
+                    return Err(keramics_core::error_trace_new!(format!(
+                        "Invalid code size: {} value out of bounds",
+                        code_size
+                    )));
+                }
                 let value_32bit: u32 = bitstream.get_value(1);
                 if value_32bit == 0 {
                     break;
@@ -554,23 +560,11 @@ impl Bzip2Context {
                     code_size -= 1;
                 }
             }
-            if code_size >= 20 {
-                return Err(keramics_core::error_trace_new!(format!(
-                    "Invalid code size: {} value out of bounds",
-                    code_size
-                )));
-            }
             code_size_array[symbol_index] = code_size as u8;
 
             largest_code_size = max(code_size, largest_code_size);
         }
-        if largest_code_size > 32 {
-            return Err(keramics_core::error_trace_new!(format!(
-                "Invalid largest code size: {} value out of bounds",
-                largest_code_size
-            )));
-        }
-        let mut check_value: u32 = 1 << largest_code_size;
+        let mut check_value: i32 = 1 << largest_code_size;
 
         for symbol_index in 0..number_of_symbols {
             code_size = code_size_array[symbol_index] as u32;
-- 
2.43.0


From cc1d53cc2d03bc9af8c30314f953c4f205a29b97 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:37:01 +0000
Subject: [PATCH 054/148] fix: malformed bzip2 blocks are decompressed to other
 data or panic

---
 keramics-compression/src/bzip2.rs | 33 ++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/keramics-compression/src/bzip2.rs b/keramics-compression/src/bzip2.rs
index da80ead..f6625a4 100644
--- a/keramics-compression/src/bzip2.rs
+++ b/keramics-compression/src/bzip2.rs
@@ -333,10 +333,36 @@ impl Bzip2Context {
             if block_header.signature == 0x177245385090 {
                 break;
             }
+            if block_header.randomized_flag != 0 {
+                return Err(keramics_core::error_trace_new!(
+                    "Unsupported randomized block"
+                ));
+            }
             let number_of_symbols: usize = self.read_symbol_stack(bitstream, &mut symbol_stack)?;
+
+            if number_of_symbols < 3 {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Invalid number of symbols: {} value out of bounds",
+                    number_of_symbols
+                )));
+            }
             let number_of_trees: u32 = bitstream.get_value(3);
+
+            if number_of_trees < 2 || number_of_trees > 6 {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Invalid number of trees: {} value out of bounds",
+                    number_of_trees
+                )));
+            }
             let number_of_selectors: u32 = bitstream.get_value(15);
 
+            if number_of_selectors == 0 {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Invalid number of selectors: {} value out of bounds",
+                    number_of_selectors
+                )));
+            }
+
             if self.mediator.debug_output {
                 self.mediator.debug_print(format!("Bzip2Bitstream {{\n",));
                 self.mediator
@@ -473,6 +499,11 @@ impl Bzip2Context {
                 break;
             }
             if symbol == 0 || symbol == 1 {
+                if number_of_run_length_symbols >= 32 {
+                    return Err(keramics_core::error_trace_new!(
+                        "Invalid number of run-length symbols value out of bounds"
+                    ));
+                }
                 run_length_value |= (symbol as u64) << (number_of_run_length_symbols as u64);
                 number_of_run_length_symbols += 1;
 
@@ -515,7 +546,7 @@ impl Bzip2Context {
             if symbol_index % 50 == 0 {
                 let selector_index: usize = symbol_index / 50;
 
-                if selector_index > number_of_selectors {
+                if selector_index >= number_of_selectors {
                     return Err(keramics_core::error_trace_new!(format!(
                         "Invalid selector index: {} value out of bounds",
                         selector_index
-- 
2.43.0


From 7c8b7a40ade5c33ca1f2c0e102bb7b6b11035d62 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:37:12 +0000
Subject: [PATCH 055/148] fix: truncated bzip2 data is decompressed to other
 data

Bits after the end of the compressed data were read as 0 and data without an
end of stream was accepted.
---
 keramics-compression/src/bzip2.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/keramics-compression/src/bzip2.rs b/keramics-compression/src/bzip2.rs
index f6625a4..6167bb1 100644
--- a/keramics-compression/src/bzip2.rs
+++ b/keramics-compression/src/bzip2.rs
@@ -48,6 +48,9 @@ pub(super) struct Bzip2Bitstream<'a> {
 
     /// Number of bits in the bits buffer.
     pub number_of_bits: usize,
+
+    /// Value to indicate bits were read after the end of the data.
+    read_after_end: bool,
 }
 
 impl<'a> Bzip2Bitstream<'a> {
@@ -60,6 +63,7 @@ impl<'a> Bzip2Bitstream<'a> {
             data_size: data_size,
             bits: 0,
             number_of_bits: 0,
+            read_after_end: false,
         }
     }
 
@@ -73,6 +77,8 @@ impl<'a> Bzip2Bitstream<'a> {
             if self.data_offset < self.data_size {
                 self.bits |= self.data[self.data_offset] as u32;
                 self.data_offset += 1;
+            } else {
+                self.read_after_end = true;
             }
             self.number_of_bits += 8;
         }
@@ -327,9 +333,14 @@ impl Bzip2Context {
         let mut stream_checksum: u32 = 0;
 
         let mut block_header: Bzip2BlockHeader = Bzip2BlockHeader::new();
-        while bitstream.data_offset < bitstream.data_size {
+        loop {
             block_header.read_from_bitstream(bitstream)?;
 
+            if bitstream.read_after_end {
+                return Err(keramics_core::error_trace_new!(
+                    "Invalid compressed data value too small"
+                ));
+            }
             if block_header.signature == 0x177245385090 {
                 break;
             }
-- 
2.43.0


From 0015de88ea27385f03118dda6f6ddb54bb2b5cf6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:50:53 +0000
Subject: [PATCH 056/148] fix: LZVN copies of distance 0 leave parts of the
 output unset

---
 keramics-compression/src/lzvn.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/keramics-compression/src/lzvn.rs b/keramics-compression/src/lzvn.rs
index 9c93d77..94baf58 100644
--- a/keramics-compression/src/lzvn.rs
+++ b/keramics-compression/src/lzvn.rs
@@ -477,9 +477,9 @@ impl LzvnContext {
                 uncompressed_data_offset = uncompressed_data_end_offset;
             }
             if match_size > 0 {
-                if distance as usize > uncompressed_data_offset {
+                if distance == 0 || distance as usize > uncompressed_data_offset {
                     return Err(keramics_core::error_trace_new!(
-                        "Invalid distance value exceeds uncompressed data offset"
+                        "Invalid distance value out of bounds"
                     ));
                 }
                 if match_size as usize > uncompressed_data_size - uncompressed_data_offset {
-- 
2.43.0


From 9f14c977179d5b4b9711060d7a784ea3cf04716b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:50:53 +0000
Subject: [PATCH 057/148] fix: LZVN data without end of stream is decompressed
 to less data

---
 keramics-compression/src/lzvn.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keramics-compression/src/lzvn.rs b/keramics-compression/src/lzvn.rs
index 94baf58..5541ddb 100644
--- a/keramics-compression/src/lzvn.rs
+++ b/keramics-compression/src/lzvn.rs
@@ -330,7 +330,7 @@ impl LzvnContext {
         // Note that distance can be reused by subsequent oppcodes.
         let mut distance: u16 = 0;
 
-        while compressed_data_offset < compressed_data_size {
+        loop {
             if uncompressed_data_offset >= uncompressed_data_size {
                 break;
             }
-- 
2.43.0


From cd54566b33b259428b0bbea42cee9d4cad31674c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:50:53 +0000
Subject: [PATCH 058/148] fix: LZVN blocks in LZFSE data cannot refer to the
 blocks before them

---
 keramics-compression/src/lzfse.rs |  6 +++---
 keramics-compression/src/lzvn.rs  | 14 ++++++++++++--
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/keramics-compression/src/lzfse.rs b/keramics-compression/src/lzfse.rs
index bf9d1da..d41b20a 100644
--- a/keramics-compression/src/lzfse.rs
+++ b/keramics-compression/src/lzfse.rs
@@ -810,10 +810,10 @@ impl LzfseContext {
                     let uncompressed_data_end_offset: usize =
                         uncompressed_data_offset + uncompressed_block_size as usize;
 
-                    self.lzvn_context.decompress(
+                    self.lzvn_context.decompress_block(
                         &compressed_data[compressed_data_offset..compressed_data_end_offset],
-                        &mut uncompressed_data
-                            [uncompressed_data_offset..uncompressed_data_end_offset],
+                        &mut uncompressed_data[..uncompressed_data_end_offset],
+                        uncompressed_data_offset,
                     )?;
 
                     compressed_data_offset = compressed_data_end_offset;
diff --git a/keramics-compression/src/lzvn.rs b/keramics-compression/src/lzvn.rs
index 5541ddb..a8081ef 100644
--- a/keramics-compression/src/lzvn.rs
+++ b/keramics-compression/src/lzvn.rs
@@ -317,11 +317,21 @@ impl LzvnContext {
         &mut self,
         compressed_data: &[u8],
         uncompressed_data: &mut [u8],
+    ) -> Result<(), ErrorTrace> {
+        self.decompress_block(compressed_data, uncompressed_data, 0)
+    }
+
+    /// Decompress a block of data that follows the uncompressed data before the offset.
+    pub(super) fn decompress_block(
+        &mut self,
+        compressed_data: &[u8],
+        uncompressed_data: &mut [u8],
+        block_offset: usize,
     ) -> Result<(), ErrorTrace> {
         let mut compressed_data_offset: usize = 0;
         let compressed_data_size: usize = compressed_data.len();
 
-        let mut uncompressed_data_offset: usize = 0;
+        let mut uncompressed_data_offset: usize = block_offset;
         let uncompressed_data_size: usize = uncompressed_data.len();
 
         if self.mediator.debug_output {
@@ -509,7 +519,7 @@ impl LzvnContext {
         if self.mediator.debug_output {
             self.mediator.debug_print(format!("}}\n\n",));
         }
-        self.uncompressed_data_size = uncompressed_data_offset;
+        self.uncompressed_data_size = uncompressed_data_offset - block_offset;
 
         Ok(())
     }
-- 
2.43.0


From cf1855e1786ee7d842a4e9c9625548c1d8678677 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 059/148] fix: LZFSE version 1 blocks cannot be decompressed

---
 keramics-compression/src/lzfse.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/keramics-compression/src/lzfse.rs b/keramics-compression/src/lzfse.rs
index d41b20a..45cb6d2 100644
--- a/keramics-compression/src/lzfse.rs
+++ b/keramics-compression/src/lzfse.rs
@@ -922,7 +922,6 @@ impl LzfseContext {
                 .debug_print(format!("LzfseFrequencyTable {{\n"));
             self.mediator.debug_print(format!("    values: [\n"));
         }
-        let mut data_offset: usize = 42;
         for frequency_table_index in 0..360 {
             let frequency_value: u16 = bytes_to_u16_le!(compressed_data, data_offset);
             data_offset += 2;
-- 
2.43.0


From e48af779014d9e4409c9f5e8881cf2013574e838 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 060/148] fix: truncated LZFSE frequency tables panic

---
 keramics-compression/src/lzfse.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/keramics-compression/src/lzfse.rs b/keramics-compression/src/lzfse.rs
index 45cb6d2..92a7472 100644
--- a/keramics-compression/src/lzfse.rs
+++ b/keramics-compression/src/lzfse.rs
@@ -962,6 +962,9 @@ impl LzfseContext {
         let mut block_header: LzfseBlockV2Header = LzfseBlockV2Header::new();
         let mut data_end_offset: usize = data_offset + 24;
 
+        // Note that the frequency table of a previous block is not reused.
+        frequency_table.fill(0);
+
         if data_end_offset > compressed_data_size {
             return Err(keramics_core::error_trace_new!(
                 "Invalid compressed data value too small"
@@ -1033,6 +1036,11 @@ impl LzfseContext {
                 }
                 frequency_table[frequency_table_index] = frequency_value;
 
+                if frequency_value_size as usize > number_of_bits {
+                    return Err(keramics_core::error_trace_new!(
+                        "Invalid compressed frequency table value too small"
+                    ));
+                }
                 value_32bit >>= frequency_value_size;
                 number_of_bits -= frequency_value_size as usize;
             }
@@ -1041,7 +1049,7 @@ impl LzfseContext {
                 self.mediator.debug_print(format!("}}\n"));
             }
         }
-        *compressed_data_offset = data_offset;
+        *compressed_data_offset = data_end_offset;
 
         Ok(())
     }
-- 
2.43.0


From 172eb5058953208437e7a1ccf3e60262101d1fcd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 061/148] fix: LZFSE frequencies that are out of bounds panic

---
 keramics-compression/src/lzfse.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/keramics-compression/src/lzfse.rs b/keramics-compression/src/lzfse.rs
index 92a7472..e4b8514 100644
--- a/keramics-compression/src/lzfse.rs
+++ b/keramics-compression/src/lzfse.rs
@@ -489,14 +489,14 @@ impl LzfseContext {
             if frequency == 0 {
                 continue;
             }
-            sum_of_frequencies += frequency as i16;
-
-            if sum_of_frequencies > number_of_states {
+            if frequency as i32 > (number_of_states - sum_of_frequencies) as i32 {
                 return Err(keramics_core::error_trace_new!(format!(
                     "Invalid sum of frequencies: {} value out of bounds",
-                    sum_of_frequencies,
+                    (sum_of_frequencies as i32) + (frequency as i32),
                 )));
             }
+            sum_of_frequencies += frequency as i16;
+
             let number_of_bits: u32 = frequency.leading_zeros() - number_of_leading_zeros;
             let base_decoder_weight: i16 =
                 ((2 * number_of_states) >> number_of_bits) - frequency as i16;
@@ -546,14 +546,14 @@ impl LzfseContext {
             if frequency == 0 {
                 continue;
             }
-            sum_of_frequencies += frequency as i16;
-
-            if sum_of_frequencies > number_of_states {
+            if frequency as i32 > (number_of_states - sum_of_frequencies) as i32 {
                 return Err(keramics_core::error_trace_new!(format!(
                     "Invalid sum of frequencies: {} value out of bounds",
-                    sum_of_frequencies,
+                    (sum_of_frequencies as i32) + (frequency as i32),
                 )));
             }
+            sum_of_frequencies += frequency as i16;
+
             let number_of_bits: u32 = frequency.leading_zeros() - number_of_leading_zeros;
             let base_decoder_weight: i16 =
                 ((2 * number_of_states) >> number_of_bits) - frequency as i16;
-- 
2.43.0


From 5590c9baa8c7ee46058e4670c70c774b070509e4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 062/148] fix: LZFSE values are read from before their data

---
 keramics-compression/src/lzfse.rs | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/keramics-compression/src/lzfse.rs b/keramics-compression/src/lzfse.rs
index e4b8514..09e61b8 100644
--- a/keramics-compression/src/lzfse.rs
+++ b/keramics-compression/src/lzfse.rs
@@ -100,6 +100,9 @@ pub(super) struct LzfseBitstream<'a> {
 
     /// Number of bits in the bits buffer.
     pub number_of_bits: usize,
+
+    /// Value to indicate bits were read beyond the start of the byte stream.
+    pub overflow: bool,
 }
 
 impl<'a> LzfseBitstream<'a> {
@@ -112,6 +115,7 @@ impl<'a> LzfseBitstream<'a> {
             data_size: data_size,
             bits: 0,
             number_of_bits: 0,
+            overflow: false,
         }
     }
 
@@ -125,6 +129,8 @@ impl<'a> LzfseBitstream<'a> {
             if self.data_offset > 0 {
                 self.data_offset -= 1;
                 self.bits |= self.data[self.data_offset] as u32;
+            } else {
+                self.overflow = true;
             }
             self.number_of_bits += 8;
         }
@@ -846,12 +852,20 @@ impl LzfseContext {
             ));
         }
         let data_end_offset: usize = data_offset + decoder.literals_data_size as usize;
-        let mut bitstream: LzfseBitstream = LzfseBitstream::new(compressed_data, data_end_offset);
+        let mut bitstream: LzfseBitstream = LzfseBitstream::new(
+            &compressed_data[data_offset..data_end_offset],
+            data_end_offset - data_offset,
+        );
 
         let mut literal_values: [u8; LZFSE_MAXIMUM_NUMBER_OF_LITERALS] =
             [0; LZFSE_MAXIMUM_NUMBER_OF_LITERALS];
         self.read_literal_values(decoder, &mut bitstream, &mut literal_values)?;
 
+        if bitstream.overflow {
+            return Err(keramics_core::error_trace_new!(
+                "Invalid literals data size value too small"
+            ));
+        }
         data_offset = data_end_offset;
 
         if decoder.lmd_values_data_size as usize > compressed_data_size - data_offset {
@@ -860,7 +874,10 @@ impl LzfseContext {
             ));
         }
         let data_end_offset: usize = data_offset + decoder.lmd_values_data_size as usize;
-        let mut bitstream: LzfseBitstream = LzfseBitstream::new(compressed_data, data_end_offset);
+        let mut bitstream: LzfseBitstream = LzfseBitstream::new(
+            &compressed_data[data_offset..data_end_offset],
+            data_end_offset - data_offset,
+        );
 
         self.read_lmd_values(
             decoder,
@@ -870,6 +887,12 @@ impl LzfseContext {
             uncompressed_data_offset,
             uncompressed_data_size,
         )?;
+
+        if bitstream.overflow {
+            return Err(keramics_core::error_trace_new!(
+                "Invalid L, M and D values data size value too small"
+            ));
+        }
         *compressed_data_offset = data_end_offset;
 
         Ok(())
-- 
2.43.0


From af09b3358061f3f7a23213dfd9fb7636fa5f09a1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 063/148] fix: LZFSE literals and distances that do not exist
 are used

---
 keramics-compression/src/lzfse.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/keramics-compression/src/lzfse.rs b/keramics-compression/src/lzfse.rs
index 09e61b8..212d2e1 100644
--- a/keramics-compression/src/lzfse.rs
+++ b/keramics-compression/src/lzfse.rs
@@ -1273,7 +1273,7 @@ impl LzfseContext {
                 min(LZFSE_MAXIMUM_NUMBER_OF_LITERALS - 1, remaining_data_size);
             if l_value < 0
                 || l_value as usize > maximum_l_value
-                || literal_value_index > (LZFSE_MAXIMUM_NUMBER_OF_LITERALS as i32) - l_value
+                || literal_value_index > (decoder.number_of_literals as i32) - l_value
             {
                 return Err(keramics_core::error_trace_new!(format!(
                     "Invalid L value: {} value out of bounds",
@@ -1294,7 +1294,10 @@ impl LzfseContext {
                     m_value
                 )));
             }
-            if active_d_value < 0 || active_d_value as usize > data_offset {
+            if active_d_value < 0
+                || active_d_value as usize > data_offset
+                || (active_d_value == 0 && m_value > 0)
+            {
                 return Err(keramics_core::error_trace_new!(format!(
                     "Invalid D value: {} value out of bounds",
                     active_d_value
-- 
2.43.0


From 0cf35edeb13bf9ca8ec45ca0fdd336c9d4c5fc58 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 064/148] fix: size of uncompressed LZFSE blocks is not checked

---
 keramics-compression/src/lzfse.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/keramics-compression/src/lzfse.rs b/keramics-compression/src/lzfse.rs
index 212d2e1..3fb5eff 100644
--- a/keramics-compression/src/lzfse.rs
+++ b/keramics-compression/src/lzfse.rs
@@ -784,6 +784,9 @@ impl LzfseContext {
                         &frequency_table[104..360],
                         &mut decoder.literal_decoder_table,
                     )?;
+                    let uncompressed_data_end_offset: usize =
+                        uncompressed_data_offset + uncompressed_block_size as usize;
+
                     self.decompress_block(
                         &decoder,
                         compressed_data,
@@ -791,8 +794,14 @@ impl LzfseContext {
                         compressed_data_size,
                         uncompressed_data,
                         &mut uncompressed_data_offset,
-                        uncompressed_data_size,
+                        uncompressed_data_end_offset,
                     )?;
+
+                    if uncompressed_data_offset != uncompressed_data_end_offset {
+                        return Err(keramics_core::error_trace_new!(
+                            "Mismatch between uncompressed block and data size"
+                        ));
+                    }
                 }
                 LZFSE_COMPRESSED_BLOCK_LZVN_MARKER => {
                     if 4 > compressed_data_size - compressed_data_offset {
@@ -822,6 +831,12 @@ impl LzfseContext {
                         uncompressed_data_offset,
                     )?;
 
+                    if self.lzvn_context.uncompressed_data_size != uncompressed_block_size as usize
+                    {
+                        return Err(keramics_core::error_trace_new!(
+                            "Mismatch between uncompressed block and data size"
+                        ));
+                    }
                     compressed_data_offset = compressed_data_end_offset;
                     uncompressed_data_offset = uncompressed_data_end_offset;
                 }
-- 
2.43.0


From 8e9fc43c705f982b49a9193fef023c01b0c160ff Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 065/148] fix: LZFSE data without end of stream is decompressed
 to less data

---
 keramics-compression/src/lzfse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keramics-compression/src/lzfse.rs b/keramics-compression/src/lzfse.rs
index 3fb5eff..8eea367 100644
--- a/keramics-compression/src/lzfse.rs
+++ b/keramics-compression/src/lzfse.rs
@@ -602,7 +602,7 @@ impl LzfseContext {
         let mut uncompressed_data_offset: usize = 0;
         let uncompressed_data_size: usize = uncompressed_data.len();
 
-        while compressed_data_offset < compressed_data_size {
+        loop {
             if uncompressed_data_offset >= uncompressed_data_size {
                 break;
             }
-- 
2.43.0


From 08f25d0c7767cc742d3cbab2eacf8c3de9ad21c9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 066/148] fix: truncated LZNT1 blocks are decompressed to less
 data or panic

---
 keramics-compression/src/lznt1.rs | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/keramics-compression/src/lznt1.rs b/keramics-compression/src/lznt1.rs
index 3e60071..199b00a 100644
--- a/keramics-compression/src/lznt1.rs
+++ b/keramics-compression/src/lznt1.rs
@@ -128,11 +128,19 @@ impl Lznt1Context {
             compressed_data_offset = compressed_data_end_offset;
 
             if block_header.is_compressed {
+                let compressed_data_end_offset: usize =
+                    compressed_data_offset + block_header.block_size as usize;
+
+                if compressed_data_end_offset > compressed_data_size {
+                    return Err(keramics_core::error_trace_new!(
+                        "Invalid compressed data value too small"
+                    ));
+                }
                 let write_count: usize = self.decompress_block(
                     block_header.block_size as usize,
                     compressed_data,
                     &mut compressed_data_offset,
-                    compressed_data_size,
+                    compressed_data_end_offset,
                     &mut uncompressed_data[uncompressed_data_offset..],
                     uncompressed_data_size - uncompressed_data_offset,
                 )?;
@@ -143,16 +151,6 @@ impl Lznt1Context {
                 let uncompressed_data_end_offset: usize =
                     uncompressed_data_offset + block_header.block_size as usize;
 
-                if self.mediator.debug_output {
-                    self.mediator
-                        .debug_print(format!("Lznt1Context::decompress {{\n",));
-                    self.mediator.debug_print(format!("    literal data:\n"));
-                    self.mediator.debug_print_data(
-                        &compressed_data[compressed_data_offset..compressed_data_end_offset],
-                        true,
-                    );
-                    self.mediator.debug_print(format!("}}\n\n"));
-                }
                 if compressed_data_end_offset > compressed_data_size {
                     return Err(keramics_core::error_trace_new!(
                         "Invalid compressed data value too small"
@@ -163,6 +161,16 @@ impl Lznt1Context {
                         "Invalid uncompressed data value too small"
                     ));
                 }
+                if self.mediator.debug_output {
+                    self.mediator
+                        .debug_print(format!("Lznt1Context::decompress {{\n",));
+                    self.mediator.debug_print(format!("    literal data:\n"));
+                    self.mediator.debug_print_data(
+                        &compressed_data[compressed_data_offset..compressed_data_end_offset],
+                        true,
+                    );
+                    self.mediator.debug_print(format!("}}\n\n"));
+                }
                 uncompressed_data[uncompressed_data_offset..uncompressed_data_end_offset]
                     .copy_from_slice(
                         &compressed_data[compressed_data_offset..compressed_data_end_offset],
-- 
2.43.0


From f4acb96c42dd57d555b1689d6ef485e254c9c168 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 067/148] fix: LZFSE blocks with less than 8 bytes of values
 cannot be decompressed

---
 keramics-compression/src/lzfse.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/keramics-compression/src/lzfse.rs b/keramics-compression/src/lzfse.rs
index 8eea367..fd8db18 100644
--- a/keramics-compression/src/lzfse.rs
+++ b/keramics-compression/src/lzfse.rs
@@ -1021,7 +1021,8 @@ impl LzfseContext {
                 ));
         }
         block_header.read_data(&compressed_data[data_offset..data_end_offset], decoder)?;
-        if block_header.header_size as usize > compressed_data_size - data_offset {
+        // Note that the header size includes the block marker and uncompressed block size.
+        if block_header.header_size as usize - 8 > compressed_data_size - data_offset {
             return Err(keramics_core::error_trace_new!(
                 "Invalid compressed data value too small"
             ));
-- 
2.43.0


From fa0237fb546cf51aa26e387be74662dbf96d7772 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:02:29 +0000
Subject: [PATCH 068/148] fix: UDIF sparse block ranges outside the data fork
 cannot be opened

---
 keramics-formats/src/udif/file.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/keramics-formats/src/udif/file.rs b/keramics-formats/src/udif/file.rs
index fcec86b..503b426 100644
--- a/keramics-formats/src/udif/file.rs
+++ b/keramics-formats/src/udif/file.rs
@@ -236,16 +236,21 @@ impl UdifFile {
                             table_index, entry_index,
                         )));
                     }
-                    if block_table_entry.data_offset < file_footer.data_fork_offset
-                        || block_table_entry.data_offset >= data_fork_end_offset
+                    // Note that sparse block ranges have no data.
+                    let has_data: bool = !matches!(block_table_entry.entry_type, 0 | 2);
+
+                    if has_data
+                        && (block_table_entry.data_offset < file_footer.data_fork_offset
+                            || block_table_entry.data_offset >= data_fork_end_offset)
                     {
                         return Err(keramics_core::error_trace_new!(format!(
                             "Unsupported block table: {} entry: {} data offset value out of bounds",
                             table_index, entry_index,
                         )));
                     }
-                    if block_table_entry.data_size
-                        > data_fork_end_offset - block_table_entry.data_offset
+                    if has_data
+                        && block_table_entry.data_size
+                            > data_fork_end_offset - block_table_entry.data_offset
                     {
                         return Err(keramics_core::error_trace_new!(format!(
                             "Unsupported block table: {} entry: {} data size value out of bounds",
-- 
2.43.0


From 53274c49593896ebb289fc09dc95e566a48d49ba Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:02:29 +0000
Subject: [PATCH 069/148] fix: UDIF raw block ranges are read past the end of
 their data

---
 keramics-formats/src/udif/file.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/keramics-formats/src/udif/file.rs b/keramics-formats/src/udif/file.rs
index 503b426..7acbbec 100644
--- a/keramics-formats/src/udif/file.rs
+++ b/keramics-formats/src/udif/file.rs
@@ -268,13 +268,21 @@ impl UdifFile {
                             0,
                             UdifBlockRangeType::Sparse,
                         ),
-                        0x00000001 => UdifBlockRange::new(
-                            media_offset,
-                            block_table_entry.data_offset,
-                            media_size,
-                            0,
-                            UdifBlockRangeType::InFile,
-                        ),
+                        0x00000001 => {
+                            if block_table_entry.data_size < media_size {
+                                return Err(keramics_core::error_trace_new!(format!(
+                                    "Unsupported block table: {} entry: {} data size value out of bounds",
+                                    table_index, entry_index,
+                                )));
+                            }
+                            UdifBlockRange::new(
+                                media_offset,
+                                block_table_entry.data_offset,
+                                media_size,
+                                0,
+                                UdifBlockRangeType::InFile,
+                            )
+                        }
                         0x80000004..0x80000008 => {
                             if block_table_entry.number_of_sectors > 2048 {
                                 return Err(keramics_core::error_trace_new!(format!(
-- 
2.43.0


From 9672fab0492fb0bdd1bf68c6dbba6cce32ed92d6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:02:29 +0000
Subject: [PATCH 070/148] fix: reading UDIF values that are too large panics

---
 keramics-formats/src/udif/file.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/keramics-formats/src/udif/file.rs b/keramics-formats/src/udif/file.rs
index 7acbbec..66f980b 100644
--- a/keramics-formats/src/udif/file.rs
+++ b/keramics-formats/src/udif/file.rs
@@ -108,7 +108,17 @@ impl UdifFile {
         }
         self.bytes_per_sector = 512;
 
-        let data_fork_end_offset: u64 = file_footer.data_fork_offset + file_footer.data_fork_size;
+        let data_fork_end_offset: u64 = match file_footer
+            .data_fork_offset
+            .checked_add(file_footer.data_fork_size)
+        {
+            Some(data_fork_end_offset) => data_fork_end_offset,
+            None => {
+                return Err(keramics_core::error_trace_new!(
+                    "Invalid data fork size value out of bounds"
+                ));
+            }
+        };
 
         if file_footer.plist_size == 0 {
             self.data_fork_offset = file_footer.data_fork_offset;
@@ -229,7 +239,8 @@ impl UdifFile {
                         )));
                     }
                     if block_table_entry.number_of_sectors == 0
-                        || block_table_entry.number_of_sectors > MAXIMUM_NUMBER_OF_SECTORS
+                        || block_table_entry.number_of_sectors
+                            > MAXIMUM_NUMBER_OF_SECTORS - media_sector
                     {
                         return Err(keramics_core::error_trace_new!(format!(
                             "Unsupported block table: {} entry: {} number of sectors value out of bounds",
-- 
2.43.0


From f1b90a5e0bad20295d9103f5eb8b4ac10b1e3a3e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:02:29 +0000
Subject: [PATCH 071/148] fix: UDIF compressed data that is too short is read
 as zeros

---
 keramics-formats/src/udif/file.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/keramics-formats/src/udif/file.rs b/keramics-formats/src/udif/file.rs
index 66f980b..3c80e9e 100644
--- a/keramics-formats/src/udif/file.rs
+++ b/keramics-formats/src/udif/file.rs
@@ -486,12 +486,12 @@ impl UdifFile {
             ));
             self.mediator.debug_print_data(&compressed_data, true);
         }
-        match self.compression_method {
+        let decompressed_size: usize = match self.compression_method {
             UdifCompressionMethod::Adc => {
                 let mut adc_context: AdcContext = AdcContext::new();
 
                 match adc_context.decompress(&compressed_data, data) {
-                    Ok(_) => {}
+                    Ok(_) => adc_context.uncompressed_data_size,
                     Err(mut error) => {
                         keramics_core::error_trace_add_frame!(
                             error,
@@ -505,7 +505,7 @@ impl UdifFile {
                 let mut bzip2_context: Bzip2Context = Bzip2Context::new();
 
                 match bzip2_context.decompress(&compressed_data, data) {
-                    Ok(_) => {}
+                    Ok(_) => bzip2_context.uncompressed_data_size,
                     Err(mut error) => {
                         keramics_core::error_trace_add_frame!(
                             error,
@@ -519,7 +519,7 @@ impl UdifFile {
                 let mut lzfse_context: LzfseContext = LzfseContext::new();
 
                 match lzfse_context.decompress(&compressed_data, data) {
-                    Ok(_) => {}
+                    Ok(_) => lzfse_context.uncompressed_data_size,
                     Err(mut error) => {
                         keramics_core::error_trace_add_frame!(
                             error,
@@ -537,7 +537,7 @@ impl UdifFile {
                 let mut zlib_context: ZlibContext = ZlibContext::new();
 
                 match zlib_context.decompress(&compressed_data, data) {
-                    Ok(_) => {}
+                    Ok(_) => zlib_context.uncompressed_data_size,
                     Err(mut error) => {
                         keramics_core::error_trace_add_frame!(
                             error,
@@ -553,6 +553,13 @@ impl UdifFile {
                 ));
             }
         };
+        if decompressed_size != data.len() {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Unsupported decompressed data size: {} expected: {}",
+                decompressed_size,
+                data.len()
+            )));
+        }
         Ok(())
     }
 }
-- 
2.43.0


From 553c451b7eb77ab7d318b6a4d10ba29dbaa8a727 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:02:29 +0000
Subject: [PATCH 072/148] fix: UDIF block ranges that share data are read from
 the wrong cache entry

---
 keramics-formats/src/udif/file.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/keramics-formats/src/udif/file.rs b/keramics-formats/src/udif/file.rs
index 3c80e9e..d4fe6ee 100644
--- a/keramics-formats/src/udif/file.rs
+++ b/keramics-formats/src/udif/file.rs
@@ -402,7 +402,7 @@ impl UdifFile {
                     let range_data_offset: usize = range_relative_offset as usize;
                     let range_data_end_offset: usize = range_data_offset + range_read_size;
 
-                    if !self.block_cache.contains(&block_range.data_offset) {
+                    if !self.block_cache.contains(&block_range.media_offset) {
                         let mut data: Vec<u8> = vec![0; block_range.size as usize];
 
                         match self.read_compressed_block(block_range, &mut data) {
@@ -415,9 +415,9 @@ impl UdifFile {
                                 return Err(error);
                             }
                         }
-                        self.block_cache.insert(block_range.data_offset, data);
+                        self.block_cache.insert(block_range.media_offset, data);
                     }
-                    let range_data: &Vec<u8> = match self.block_cache.get(&block_range.data_offset)
+                    let range_data: &Vec<u8> = match self.block_cache.get(&block_range.media_offset)
                     {
                         Some(data) => data,
                         None => {
-- 
2.43.0


From d708df9477be14bcf04264361ddceb088d477b8a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:02:29 +0000
Subject: [PATCH 073/148] fix: UDIF files with a plist larger than 64 KiB
 cannot be opened

---
 keramics-formats/src/udif/file.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/keramics-formats/src/udif/file.rs b/keramics-formats/src/udif/file.rs
index d4fe6ee..64ef4b7 100644
--- a/keramics-formats/src/udif/file.rs
+++ b/keramics-formats/src/udif/file.rs
@@ -28,6 +28,8 @@ use super::file_footer::UdifFileFooter;
 
 const MAXIMUM_NUMBER_OF_SECTORS: u64 = u64::MAX / 512;
 
+const MAXIMUM_PLIST_SIZE: u64 = 64 * 1024 * 1024;
+
 /// Universal Disk Image Format (UDIF) file.
 pub struct UdifFile {
     /// Mediator.
@@ -125,7 +127,7 @@ impl UdifFile {
             self.has_block_ranges = false;
             self.media_size = file_footer.data_fork_size;
         } else {
-            if file_footer.plist_size == 0 || file_footer.plist_size > 65536 {
+            if file_footer.plist_size > MAXIMUM_PLIST_SIZE {
                 return Err(keramics_core::error_trace_new!(
                     "Unsupported plist data size"
                 ));
-- 
2.43.0


From d76f47cf5b91bace1fff0398d1ecdf8082b52739 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:19:54 +0000
Subject: [PATCH 074/148] fix: MBR logical partitions are relative to their own
 extended boot record

---
 docs/formats/src/mbr.md                     |  5 +++--
 keramics-formats/src/mbr/partition_entry.rs |  4 ++++
 keramics-formats/src/mbr/volume_system.rs   | 10 +++++-----
 3 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/docs/formats/src/mbr.md b/docs/formats/src/mbr.md
index 24d550e..0c319f9 100644
--- a/docs/formats/src/mbr.md
+++ b/docs/formats/src/mbr.md
@@ -125,8 +125,9 @@ and additional extended partition tables.
 | 510 | 2 | "\x55\xaa" | Signature
 
 The second partition entry contains an extended partition which points to the
-next EPR. The LBA addresses in the EPR are relative to the start of the first
-EPR.
+next EPR. The LBA address of this extended partition is relative to the start of
+the first EPR. The LBA address of the logical partition is relative to the start
+of the EPR that contains it.
 
 The first EPR typically has a [partition type](#partition_types) of 0x05 but
 certain version of Windows are known to use a partition type 0x0f, such as
diff --git a/keramics-formats/src/mbr/partition_entry.rs b/keramics-formats/src/mbr/partition_entry.rs
index 59b4a96..b789edc 100644
--- a/keramics-formats/src/mbr/partition_entry.rs
+++ b/keramics-formats/src/mbr/partition_entry.rs
@@ -33,6 +33,9 @@ pub struct MbrPartitionEntry {
     /// The partition index.
     pub index: usize,
 
+    /// Offset of the boot record that contains the partition entry.
+    pub boot_record_offset: u64,
+
     /// The partition flags.
     pub flags: u8,
 
@@ -51,6 +54,7 @@ impl MbrPartitionEntry {
     pub fn new() -> Self {
         Self {
             index: 0,
+            boot_record_offset: 0,
             flags: 0,
             partition_type: 0,
             start_address_lba: 0,
diff --git a/keramics-formats/src/mbr/volume_system.rs b/keramics-formats/src/mbr/volume_system.rs
index 720d932..3acce0f 100644
--- a/keramics-formats/src/mbr/volume_system.rs
+++ b/keramics-formats/src/mbr/volume_system.rs
@@ -76,14 +76,13 @@ impl MbrVolumeSystem {
                         "Unsupported bytes per sector: 0"
                     ));
                 }
-                let mut partition_offset: u64 =
-                    partition_entry.start_address_lba as u64 * self.bytes_per_sector as u64;
+                // Note that the start address is relative to the boot record that contains
+                // the partition entry.
+                let partition_offset: u64 = partition_entry.boot_record_offset
+                    + (partition_entry.start_address_lba as u64 * self.bytes_per_sector as u64);
                 let partition_size: u64 =
                     partition_entry.number_of_sectors as u64 * self.bytes_per_sector as u64;
 
-                if partition_entry.index >= 4 {
-                    partition_offset += self.first_extended_boot_record_offset;
-                }
                 let mut partition: MbrPartition = MbrPartition::new(
                     partition_entry.index,
                     partition_offset,
@@ -274,6 +273,7 @@ impl MbrVolumeSystem {
                     + (partition_entry.start_address_lba as u64 * self.bytes_per_sector as u64);
             } else if partition_entry.partition_type != 0 {
                 partition_entry.index = first_entry_index + entry_index;
+                partition_entry.boot_record_offset = offset;
                 self.partition_entries.push(partition_entry);
             }
             entry_index += 1;
-- 
2.43.0


From 3345465c064ca39448800589af21c1ddfe2fb025 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:24:29 +0000
Subject: [PATCH 075/148] fix: GPT with one damaged partition table cannot be
 opened with the other

---
 keramics-formats/src/gpt/volume_system.rs | 130 +++++++++++++---------
 1 file changed, 75 insertions(+), 55 deletions(-)

diff --git a/keramics-formats/src/gpt/volume_system.rs b/keramics-formats/src/gpt/volume_system.rs
index 4800daf..d7f5c0e 100644
--- a/keramics-formats/src/gpt/volume_system.rs
+++ b/keramics-formats/src/gpt/volume_system.rs
@@ -132,11 +132,18 @@ impl GptVolumeSystem {
         &mut self,
         data_stream: &DataStreamReference,
     ) -> Result<(), ErrorTrace> {
-        let mut partition_table_header = GptPartitionTableHeader::new();
+        let bytes_per_sector_values: Vec<u16> = match self.bytes_per_sector {
+            0 => SUPPORTED_BYTES_PER_SECTOR.to_vec(),
+            bytes_per_sector => vec![bytes_per_sector],
+        };
+        let mut backup_positions: Vec<(u16, SeekFrom)> = Vec::new();
+        let mut first_error: Option<ErrorTrace> = None;
+
+        for bytes_per_sector in bytes_per_sector_values.iter() {
+            let mut partition_table_header = GptPartitionTableHeader::new();
 
-        if self.bytes_per_sector != 0 {
             match partition_table_header
-                .read_at_position(data_stream, SeekFrom::Start(self.bytes_per_sector as u64))
+                .read_at_position(data_stream, SeekFrom::Start(*bytes_per_sector as u64))
             {
                 Ok(_) => {}
                 Err(mut error) => {
@@ -144,64 +151,70 @@ impl GptVolumeSystem {
                         error,
                         "Unable to read partition table header"
                     );
-                    return Err(error);
+                    first_error.get_or_insert(error);
+                    continue;
                 }
             }
-        } else {
-            for bytes_per_sector in SUPPORTED_BYTES_PER_SECTOR.iter() {
-                match partition_table_header
-                    .read_at_position(data_stream, SeekFrom::Start(*bytes_per_sector as u64))
-                {
-                    Ok(_) => self.bytes_per_sector = *bytes_per_sector,
-                    Err(_) => {}
-                };
-                if self.bytes_per_sector != 0 {
-                    break;
+            match self.read_partition_entries(
+                data_stream,
+                &partition_table_header,
+                *bytes_per_sector,
+            ) {
+                Ok(_) => return Ok(()),
+                Err(mut error) => {
+                    keramics_core::error_trace_add_frame!(
+                        error,
+                        "Unable to read partition entries"
+                    );
+                    first_error = Some(error);
                 }
             }
-            if self.bytes_per_sector == 0 {
-                return Err(keramics_core::error_trace_new!(
-                    "Unsupported bytes per sector: 0"
-                ));
+            match partition_table_header
+                .backup_header_block_number
+                .checked_mul(*bytes_per_sector as u64)
+            {
+                Some(0) | None => {}
+                Some(offset) => backup_positions.push((*bytes_per_sector, SeekFrom::Start(offset))),
             }
+            break;
         }
-        let backup_partition_table_offset: u64 =
-            partition_table_header.backup_header_block_number * self.bytes_per_sector as u64;
-
-        let mut backup_partition_table_header = GptPartitionTableHeader::new();
-
-        if backup_partition_table_offset > 0 {
-            match backup_partition_table_header
-                .read_at_position(data_stream, SeekFrom::Start(backup_partition_table_offset))
+        for bytes_per_sector in bytes_per_sector_values.iter() {
+            backup_positions.push((
+                *bytes_per_sector,
+                SeekFrom::End(-(*bytes_per_sector as i64)),
+            ));
+        }
+        if self.mediator.debug_output {
+            self.mediator.debug_print(format!(
+                "Invalid partition table falling back to backup partition table\n"
+            ));
+        }
+        for (bytes_per_sector, position) in backup_positions.into_iter() {
+            let mut partition_table_header = GptPartitionTableHeader::new();
+
+            if partition_table_header
+                .read_at_position(data_stream, position)
+                .is_ok()
+                && self
+                    .read_partition_entries(data_stream, &partition_table_header, bytes_per_sector)
+                    .is_ok()
             {
-                Ok(read_count) => read_count,
-                Err(_) => {
-                    if self.mediator.debug_output {
-                        self.mediator.debug_print(format!(
-                            "Invalid backup partition table block number falling back to last block"
-                        ));
-                    }
-                    match backup_partition_table_header.read_at_position(
-                        data_stream,
-                        SeekFrom::End(-(self.bytes_per_sector as i64)),
-                    ) {
-                        Ok(_) => {}
-                        Err(mut error) => {
-                            keramics_core::error_trace_add_frame!(
-                                error,
-                                "Unable to read backup partition table"
-                            );
-                            return Err(error);
-                        }
-                    }
-                }
-            };
+                return Ok(());
+            }
         }
-        // TODO: compare primary with backup partition table header.
-
-        if !partition_table_header.disk_identifier.is_nil() {
-            self.disk_identifier = partition_table_header.disk_identifier;
+        match first_error {
+            Some(error) => Err(error),
+            None => Err(keramics_core::error_trace_new!("Missing partition table")),
         }
+    }
+
+    /// Reads the partition entries of a partition table.
+    fn read_partition_entries(
+        &mut self,
+        data_stream: &DataStreamReference,
+        partition_table_header: &GptPartitionTableHeader,
+        bytes_per_sector: u16,
+    ) -> Result<(), ErrorTrace> {
         if partition_table_header.entry_data_size != 128 {
             return Err(keramics_core::error_trace_new!(format!(
                 "Unsupported partition table entry data size: {}",
@@ -209,7 +222,7 @@ impl GptVolumeSystem {
             )));
         }
         let maximum_number_of_entries: u32 =
-            (32 * self.bytes_per_sector as u32) / partition_table_header.entry_data_size;
+            (32 * bytes_per_sector as u32) / partition_table_header.entry_data_size;
 
         if partition_table_header.number_of_entries > maximum_number_of_entries {
             return Err(keramics_core::error_trace_new!(format!(
@@ -217,10 +230,11 @@ impl GptVolumeSystem {
                 partition_table_header.number_of_entries, maximum_number_of_entries
             )));
         }
+        let mut partition_entries: Vec<GptPartitionEntry> = Vec::new();
         let mut crc32_context: ReversedCrc32Context = ReversedCrc32Context::new(0xedb88320, 0);
 
         let mut entry_data_offset: u64 =
-            partition_table_header.entries_start_block_number * self.bytes_per_sector as u64;
+            partition_table_header.entries_start_block_number * bytes_per_sector as u64;
         let mut entry_data: Vec<u8> = vec![0; partition_table_header.entry_data_size as usize];
 
         for entry_index in 0..partition_table_header.number_of_entries {
@@ -267,7 +281,7 @@ impl GptVolumeSystem {
                         partition_table_header.area_end_block_number,
                     )));
                 }
-                self.partition_entries.push(partition_entry);
+                partition_entries.push(partition_entry);
             }
         }
         let calculated_checksum: u32 = crc32_context.finalize();
@@ -280,6 +294,12 @@ impl GptVolumeSystem {
                 partition_table_header.entries_data_checksum, calculated_checksum
             )));
         }
+        if !partition_table_header.disk_identifier.is_nil() {
+            self.disk_identifier = partition_table_header.disk_identifier.clone();
+        }
+        self.bytes_per_sector = bytes_per_sector;
+        self.partition_entries = partition_entries;
+
         Ok(())
     }
 
-- 
2.43.0


From 004544f3702c50736c276798f15ad25165843237 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:24:29 +0000
Subject: [PATCH 076/148] fix: reading GPT block numbers that are too large
 panics

---
 keramics-formats/src/gpt/volume_system.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/keramics-formats/src/gpt/volume_system.rs b/keramics-formats/src/gpt/volume_system.rs
index d7f5c0e..8d1e854 100644
--- a/keramics-formats/src/gpt/volume_system.rs
+++ b/keramics-formats/src/gpt/volume_system.rs
@@ -233,8 +233,19 @@ impl GptVolumeSystem {
         let mut partition_entries: Vec<GptPartitionEntry> = Vec::new();
         let mut crc32_context: ReversedCrc32Context = ReversedCrc32Context::new(0xedb88320, 0);
 
-        let mut entry_data_offset: u64 =
-            partition_table_header.entries_start_block_number * bytes_per_sector as u64;
+        let mut entry_data_offset: u64 = match partition_table_header
+            .entries_start_block_number
+            .checked_mul(bytes_per_sector as u64)
+        {
+            // Note that there are at most 1024 partition entries of 128 bytes.
+            Some(entry_data_offset) if entry_data_offset <= i64::MAX as u64 => entry_data_offset,
+            _ => {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Partition entries start block number: {} value out of bounds",
+                    partition_table_header.entries_start_block_number
+                )));
+            }
+        };
         let mut entry_data: Vec<u8> = vec![0; partition_table_header.entry_data_size as usize];
 
         for entry_index in 0..partition_table_header.number_of_entries {
@@ -272,7 +283,9 @@ impl GptVolumeSystem {
                         partition_table_header.area_end_block_number,
                     )));
                 }
-                if partition_entry.end_block_number < partition_entry.start_block_number {
+                if partition_entry.end_block_number < partition_entry.start_block_number
+                    || partition_entry.end_block_number >= u64::MAX / bytes_per_sector as u64
+                {
                     return Err(keramics_core::error_trace_new!(format!(
                         "Partition entry: {} end block number: {} value out of bounds: {} - {}",
                         entry_index,
-- 
2.43.0


From cd43e1206b0d0c803cd4780145fd97a264d8b561 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:40:33 +0000
Subject: [PATCH 077/148] fix: EWF chunks at the same offset in different
 segment files are mixed up

---
 keramics-formats/src/ewf/image.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/keramics-formats/src/ewf/image.rs b/keramics-formats/src/ewf/image.rs
index 7d7e617..9aa7f93 100644
--- a/keramics-formats/src/ewf/image.rs
+++ b/keramics-formats/src/ewf/image.rs
@@ -72,7 +72,7 @@ pub struct EwfImage {
     /// Block tree.
     block_tree: BlockTree<EwfBlockRange>,
 
-    /// Decompressed block cache.
+    /// Decompressed block cache, by media offset.
     block_cache: LruCache<u64, Vec<u8>>,
 
     /// Error granularity.
@@ -254,7 +254,7 @@ impl EwfImage {
                     let range_data_offset: usize = range_relative_offset as usize;
                     let range_data_end_offset: usize = range_data_offset + range_read_size;
 
-                    if !self.block_cache.contains(&block_range.data_offset) {
+                    if !self.block_cache.contains(&block_range.media_offset) {
                         let mut compressed_data: Vec<u8> = vec![0; block_range.data_size as usize];
 
                         match segment_file.read_exact_at_position(
@@ -298,9 +298,12 @@ impl EwfImage {
                                 return Err(error);
                             }
                         }
-                        self.block_cache.insert(block_range.data_offset, block_data);
+                        self.block_cache
+                            .insert(block_range.media_offset, block_data);
                     }
-                    let range_data: &Vec<u8> = match self.block_cache.get(&block_range.data_offset)
+                    let range_data: &Vec<u8> = match self
+                        .block_cache
+                        .get(&block_range.media_offset)
                     {
                         Some(data) => data,
                         None => {
-- 
2.43.0


From b39648f89cd08ae33f26742912509612b70f5fe8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:41:23 +0000
Subject: [PATCH 078/148] fix: EWF images of more than 16 segment files cannot
 be read

---
 keramics-formats/src/ewf/image.rs | 158 +++++++++++++++++++-----------
 1 file changed, 101 insertions(+), 57 deletions(-)

diff --git a/keramics-formats/src/ewf/image.rs b/keramics-formats/src/ewf/image.rs
index 9aa7f93..f01b794 100644
--- a/keramics-formats/src/ewf/image.rs
+++ b/keramics-formats/src/ewf/image.rs
@@ -51,6 +51,12 @@ pub struct EwfImage {
     /// Segment file set identifier.
     pub set_identifier: Uuid,
 
+    /// Segment file stem.
+    segment_file_stem: String,
+
+    /// Segment file naming schema.
+    naming_schema: Option<EwfNamingSchema>,
+
     /// Segment file cache.
     segment_file_cache: LruCache<u16, EwfFile>,
 
@@ -104,6 +110,8 @@ impl EwfImage {
             mediator: Mediator::current(),
             file_resolver: FileResolverReference::new(Box::new(FakeFileResolver::new())),
             set_identifier: Uuid::new(),
+            segment_file_stem: String::new(),
+            naming_schema: None,
             segment_file_cache: LruCache::new(16),
             number_of_chunks: 0,
             sectors_per_chunk: 0,
@@ -200,6 +208,73 @@ impl EwfImage {
         Ok(())
     }
 
+    /// Opens a segment file.
+    fn open_segment_file(
+        &self,
+        file_resolver: &FileResolverReference,
+        segment_number: u16,
+    ) -> Result<(String, DataStreamReference, EwfFile), ErrorTrace> {
+        let naming_schema: &EwfNamingSchema = match self.naming_schema.as_ref() {
+            Some(naming_schema) => naming_schema,
+            None => {
+                return Err(keramics_core::error_trace_new!("Missing naming schema"));
+            }
+        };
+        let segment_extension: String =
+            match self.get_segment_file_extension(segment_number, naming_schema) {
+                Ok(extension) => extension,
+                Err(mut error) => {
+                    keramics_core::error_trace_add_frame!(
+                        error,
+                        "Unable to determine segment file extension"
+                    );
+                    return Err(error);
+                }
+            };
+        let segment_file_name: String = format!("{}.{}", self.segment_file_stem, segment_extension);
+
+        let path_components: [PathComponent; 1] = [PathComponent::from(&segment_file_name)];
+        let result: Option<DataStreamReference> =
+            match file_resolver.get_data_stream(&path_components) {
+                Ok(result) => result,
+                Err(mut error) => {
+                    keramics_core::error_trace_add_frame!(
+                        error,
+                        format!("Unable to open segment file: {}", segment_file_name)
+                    );
+                    return Err(error);
+                }
+            };
+        let data_stream: DataStreamReference = match result {
+            Some(data_stream) => data_stream,
+            None => {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "No such segment file: {}",
+                    segment_file_name
+                )));
+            }
+        };
+        let mut segment_file: EwfFile = EwfFile::new();
+
+        match segment_file.read_data_stream(&data_stream) {
+            Ok(_) => {}
+            Err(mut error) => {
+                keramics_core::error_trace_add_frame!(
+                    error,
+                    format!("Unable to open segment file: {}", segment_file_name)
+                );
+                return Err(error);
+            }
+        }
+        if segment_file.segment_number != segment_number {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Unsupported segment number: {} in segment file: {}",
+                segment_file.segment_number, segment_file_name
+            )));
+        }
+        Ok((segment_file_name, data_stream, segment_file))
+    }
+
     /// Reads media data based on the chunk tables.
     fn read_data_from_blocks(&mut self, data: &mut [u8]) -> Result<usize, ErrorTrace> {
         let read_size: usize = data.len();
@@ -225,8 +300,18 @@ impl EwfImage {
                 .segment_file_cache
                 .contains(&block_range.segment_number)
             {
-                let file: EwfFile = EwfFile::new();
-
+                let file: EwfFile = match self
+                    .open_segment_file(&self.file_resolver, block_range.segment_number)
+                {
+                    Ok((_, _, file)) => file,
+                    Err(mut error) => {
+                        keramics_core::error_trace_add_frame!(
+                            error,
+                            "Unable to open segment file"
+                        );
+                        return Err(error);
+                    }
+                };
                 self.segment_file_cache
                     .insert(block_range.segment_number, file);
             }
@@ -571,7 +656,7 @@ impl EwfImage {
         file_name: &PathComponent,
     ) -> Result<(), ErrorTrace> {
         // TODO: add function that retrieves both file stem and extension
-        let name: String = match file_name.file_stem() {
+        self.segment_file_stem = match file_name.file_stem() {
             Some(file_stem) => file_stem.to_string(),
             None => {
                 return Err(keramics_core::error_trace_new!(format!(
@@ -589,11 +674,11 @@ impl EwfImage {
                 )));
             }
         };
-        let naming_schema: EwfNamingSchema = match extension.as_str() {
-            "E01" => EwfNamingSchema::E01UpperCase,
-            "S01" => EwfNamingSchema::S01UpperCase,
-            "e01" => EwfNamingSchema::E01LowerCase,
-            "s01" => EwfNamingSchema::S01LowerCase,
+        self.naming_schema = match extension.as_str() {
+            "E01" => Some(EwfNamingSchema::E01UpperCase),
+            "S01" => Some(EwfNamingSchema::S01UpperCase),
+            "e01" => Some(EwfNamingSchema::E01LowerCase),
+            "s01" => Some(EwfNamingSchema::S01LowerCase),
             _ => {
                 return Err(keramics_core::error_trace_new!(format!(
                     "Unsupported extension in segment file: {}",
@@ -606,58 +691,17 @@ impl EwfImage {
         let mut segment_number: u16 = 1;
 
         while !last_segment_file {
-            let segment_extension: String =
-                match self.get_segment_file_extension(segment_number, &naming_schema) {
-                    Ok(extension) => extension,
-                    Err(mut error) => {
-                        keramics_core::error_trace_add_frame!(
-                            error,
-                            "Unable to determine segment file extension"
-                        );
-                        return Err(error);
-                    }
-                };
-            let segment_file_name: String = format!("{}.{}", name, segment_extension);
-
-            let path_components: [PathComponent; 1] = [PathComponent::from(&segment_file_name)];
-            let result: Option<DataStreamReference> =
-                match file_resolver.get_data_stream(&path_components) {
-                    Ok(result) => result,
-                    Err(mut error) => {
-                        keramics_core::error_trace_add_frame!(
-                            error,
-                            format!("Unable to open segment file: {}", segment_file_name)
-                        );
-                        return Err(error);
-                    }
-                };
-            let data_stream: DataStreamReference = match result {
-                Some(data_stream) => data_stream,
-                None => {
-                    return Err(keramics_core::error_trace_new!(format!(
-                        "No such segment file: {}",
-                        segment_file_name
-                    )));
-                }
-            };
-            let mut segment_file: EwfFile = EwfFile::new();
-
-            match segment_file.read_data_stream(&data_stream) {
-                Ok(_) => {}
+            let (segment_file_name, data_stream, segment_file): (
+                String,
+                DataStreamReference,
+                EwfFile,
+            ) = match self.open_segment_file(file_resolver, segment_number) {
+                Ok(result) => result,
                 Err(mut error) => {
-                    keramics_core::error_trace_add_frame!(
-                        error,
-                        format!("Unable to open segment file: {}", segment_file_name)
-                    );
+                    keramics_core::error_trace_add_frame!(error, "Unable to open segment file");
                     return Err(error);
                 }
-            }
-            if segment_file.segment_number != segment_number {
-                return Err(keramics_core::error_trace_new!(format!(
-                    "Unsupported segment number: {} in segment file: {}",
-                    segment_file.segment_number, segment_file_name
-                )));
-            }
+            };
             match self.read_sections(
                 &segment_file,
                 &segment_file_name,
-- 
2.43.0


From 04e17a68c206360329b708a7cee2b9eb7aa62d71 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:41:23 +0000
Subject: [PATCH 079/148] fix: EWF chunks that are damaged or too short are
 read

---
 keramics-formats/src/ewf/image.rs | 211 +++++++++++++++++-------------
 1 file changed, 117 insertions(+), 94 deletions(-)

diff --git a/keramics-formats/src/ewf/image.rs b/keramics-formats/src/ewf/image.rs
index f01b794..a905a93 100644
--- a/keramics-formats/src/ewf/image.rs
+++ b/keramics-formats/src/ewf/image.rs
@@ -11,13 +11,15 @@
  * under the License.
  */
 
+use std::cmp::min;
 use std::collections::HashMap;
 use std::io::SeekFrom;
 
+use keramics_checksums::Adler32Context;
 use keramics_compression::ZlibContext;
 use keramics_core::mediator::{Mediator, MediatorReference};
 use keramics_core::{DataStream, DataStreamReference, ErrorTrace};
-use keramics_types::Uuid;
+use keramics_types::{Uuid, bytes_to_u32_le};
 
 use crate::block_tree::BlockTree;
 use crate::fake_file_resolver::FakeFileResolver;
@@ -78,7 +80,7 @@ pub struct EwfImage {
     /// Block tree.
     block_tree: BlockTree<EwfBlockRange>,
 
-    /// Decompressed block cache, by media offset.
+    /// Block (or chunk) data cache, by media offset.
     block_cache: LruCache<u64, Vec<u8>>,
 
     /// Error granularity.
@@ -275,6 +277,50 @@ impl EwfImage {
         Ok((segment_file_name, data_stream, segment_file))
     }
 
+    /// Checks the data of an uncompressed chunk, which is followed by its checksum.
+    fn check_chunk_data(&self, mut chunk_data: Vec<u8>) -> Result<Vec<u8>, ErrorTrace> {
+        if chunk_data.len() < 4 {
+            return Err(keramics_core::error_trace_new!(
+                "Invalid uncompressed chunk data value too small"
+            ));
+        }
+        let data_size: usize = min(chunk_data.len() - 4, self.block_size as usize);
+
+        let stored_checksum: u32 = bytes_to_u32_le!(chunk_data, data_size);
+
+        let mut adler32_context: Adler32Context = Adler32Context::new(1);
+        adler32_context.update(&chunk_data[0..data_size]);
+        let calculated_checksum: u32 = adler32_context.finalize();
+
+        if stored_checksum != calculated_checksum {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Mismatch between stored: 0x{:08x} and calculated: 0x{:08x} checksums",
+                stored_checksum, calculated_checksum
+            )));
+        }
+        chunk_data.truncate(data_size);
+
+        Ok(chunk_data)
+    }
+
+    /// Decompresses the data of a compressed chunk.
+    fn decompress_chunk_data(&self, compressed_data: &[u8]) -> Result<Vec<u8>, ErrorTrace> {
+        let mut block_data: Vec<u8> = vec![0; self.block_size as usize];
+
+        let mut zlib_context: ZlibContext = ZlibContext::new();
+
+        match zlib_context.decompress(compressed_data, &mut block_data) {
+            Ok(_) => {}
+            Err(mut error) => {
+                keramics_core::error_trace_add_frame!(error, "Unable to decompress chunk data");
+                return Err(error);
+            }
+        }
+        block_data.truncate(zlib_context.uncompressed_data_size);
+
+        Ok(block_data)
+    }
+
     /// Reads media data based on the chunk tables.
     fn read_data_from_blocks(&mut self, data: &mut [u8]) -> Result<usize, ErrorTrace> {
         let read_size: usize = data.len();
@@ -334,104 +380,81 @@ impl EwfImage {
                 range_read_size = range_remainder_size as usize;
             }
             let data_end_offset: usize = data_offset + range_read_size;
-            let range_read_count: usize = match block_range.range_type {
-                EwfBlockRangeType::Compressed => {
-                    let range_data_offset: usize = range_relative_offset as usize;
-                    let range_data_end_offset: usize = range_data_offset + range_read_size;
-
-                    if !self.block_cache.contains(&block_range.media_offset) {
-                        let mut compressed_data: Vec<u8> = vec![0; block_range.data_size as usize];
-
-                        match segment_file.read_exact_at_position(
-                            &mut compressed_data,
-                            SeekFrom::Start(block_range.data_offset),
-                        ) {
-                            Ok(_) => {}
-                            Err(mut error) => {
-                                keramics_core::error_trace_add_frame!(
-                                    error,
-                                    format!(
-                                        "Unable to read compressed chunk from segment file: {} at offset: {} (0x{:08x})",
-                                        block_range.segment_number,
-                                        block_range.data_offset,
-                                        block_range.data_offset
-                                    )
-                                );
-                                return Err(error);
-                            }
-                        }
-                        if self.mediator.debug_output {
-                            self.mediator.debug_print(format!(
-                                "Compressed data of size: {} at offset: {} (0x{:08x})\n",
-                                block_range.data_size,
-                                block_range.data_offset,
+            if !self.block_cache.contains(&block_range.media_offset) {
+                let mut chunk_data: Vec<u8> = vec![0; block_range.data_size as usize];
+
+                match segment_file.read_exact_at_position(
+                    &mut chunk_data,
+                    SeekFrom::Start(block_range.data_offset),
+                ) {
+                    Ok(_) => {}
+                    Err(mut error) => {
+                        keramics_core::error_trace_add_frame!(
+                            error,
+                            format!(
+                                "Unable to read chunk from segment file: {} at offset: {} (0x{:08x})",
+                                block_range.segment_number,
                                 block_range.data_offset,
-                            ));
-                            self.mediator.debug_print_data(&compressed_data, true);
-                        }
-                        let mut block_data: Vec<u8> = vec![0; self.block_size as usize];
-
-                        let mut zlib_context: ZlibContext = ZlibContext::new();
-
-                        match zlib_context.decompress(&compressed_data, &mut block_data) {
-                            Ok(_) => {}
-                            Err(mut error) => {
-                                keramics_core::error_trace_add_frame!(
-                                    error,
-                                    "Unable to decompress chunk data"
-                                );
-                                return Err(error);
-                            }
-                        }
-                        self.block_cache
-                            .insert(block_range.media_offset, block_data);
+                                block_range.data_offset
+                            )
+                        );
+                        return Err(error);
                     }
-                    let range_data: &Vec<u8> = match self
-                        .block_cache
-                        .get(&block_range.media_offset)
-                    {
-                        Some(data) => data,
-                        None => {
-                            return Err(keramics_core::error_trace_new!(
-                                "Unable to retrieve data from cache"
-                            ));
-                        }
-                    };
-                    data[data_offset..data_end_offset]
-                        .copy_from_slice(&range_data[range_data_offset..range_data_end_offset]);
-
-                    range_read_size
                 }
-                EwfBlockRangeType::InFile => {
-                    // TODO: read full chunk
-                    let chunk_offset: u64 = block_range.data_offset + range_relative_offset;
-
-                    match segment_file.read_exact_at_position(
-                        &mut data[data_offset..data_end_offset],
-                        SeekFrom::Start(chunk_offset),
-                    ) {
-                        Ok(_) => {}
-                        Err(mut error) => {
-                            keramics_core::error_trace_add_frame!(
-                                error,
-                                format!(
-                                    "Unable to read uncompressed chunk from segment file: {} at offset: {} (0x{:08x})",
-                                    block_range.segment_number, chunk_offset, chunk_offset
-                                )
-                            );
-                            return Err(error);
-                        }
+                if self.mediator.debug_output {
+                    self.mediator.debug_print(format!(
+                        "Chunk data of size: {} at offset: {} (0x{:08x})\n",
+                        block_range.data_size, block_range.data_offset, block_range.data_offset,
+                    ));
+                    self.mediator.debug_print_data(&chunk_data, true);
+                }
+                let result: Result<Vec<u8>, ErrorTrace> = match block_range.range_type {
+                    EwfBlockRangeType::Compressed => self.decompress_chunk_data(&chunk_data),
+                    EwfBlockRangeType::InFile => self.check_chunk_data(chunk_data),
+                };
+                let block_data: Vec<u8> = match result {
+                    Ok(block_data) => block_data,
+                    Err(mut error) => {
+                        keramics_core::error_trace_add_frame!(
+                            error,
+                            format!(
+                                "Unable to read chunk at media offset: {} (0x{:08x})",
+                                block_range.media_offset, block_range.media_offset
+                            )
+                        );
+                        return Err(error);
                     }
-                    // TODO: calculate and compare checksum
-
-                    range_read_size
+                };
+                // The last chunk can contain less data.
+                let block_data_size: u64 = min(
+                    self.block_size as u64,
+                    self.media_size - block_range.media_offset,
+                );
+                if (block_data.len() as u64) < block_data_size {
+                    return Err(keramics_core::error_trace_new!(format!(
+                        "Invalid chunk at media offset: {} (0x{:08x}) data value too small",
+                        block_range.media_offset, block_range.media_offset
+                    )));
                 }
-            };
-            if range_read_count == 0 {
-                break;
+                self.block_cache
+                    .insert(block_range.media_offset, block_data);
             }
-            data_offset += range_read_count;
-            media_offset += range_read_count as u64;
+            let block_data: &Vec<u8> = match self.block_cache.get(&block_range.media_offset) {
+                Some(data) => data,
+                None => {
+                    return Err(keramics_core::error_trace_new!(
+                        "Unable to retrieve data from cache"
+                    ));
+                }
+            };
+            let range_data_offset: usize = range_relative_offset as usize;
+            let range_data_end_offset: usize = range_data_offset + range_read_size;
+
+            data[data_offset..data_end_offset]
+                .copy_from_slice(&block_data[range_data_offset..range_data_end_offset]);
+
+            data_offset += range_read_size;
+            media_offset += range_read_size as u64;
         }
         Ok(data_offset)
     }
-- 
2.43.0


From e451538f6b03e188eb43e9b0eb9c50ea02eaaaf3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:42:21 +0000
Subject: [PATCH 080/148] fix: EWF tables and volumes with values that are out
 of bounds panic

---
 keramics-formats/src/ewf/image.rs | 34 +++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/keramics-formats/src/ewf/image.rs b/keramics-formats/src/ewf/image.rs
index a905a93..6439097 100644
--- a/keramics-formats/src/ewf/image.rs
+++ b/keramics-formats/src/ewf/image.rs
@@ -780,6 +780,12 @@ impl EwfImage {
         if number_of_entries == 0 {
             return Err(keramics_core::error_trace_new!("Missing table entries"));
         }
+        if table.base_offset > u64::MAX - (u32::MAX as u64) {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Unsupported table base offset: 0x{:08x} value out of bounds",
+                table.base_offset
+            )));
+        }
         let mut table_entry: &EwfTableEntry = &table.entries[0];
         let mut chunk_data_offset_overflow: bool = false;
 
@@ -819,7 +825,10 @@ impl EwfImage {
                     ));
                 }
                 // TODO: handle corrupted table entry
-                todo!();
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Unsupported table entry: {} chunk data offset: {} not before next offset: {}",
+                    table_entry_index, chunk_data_offset, next_chunk_data_offset
+                )));
             };
             let block_range_type: EwfBlockRangeType = if chunk_is_compressed {
                 EwfBlockRangeType::Compressed
@@ -885,8 +894,17 @@ impl EwfImage {
             // The chunks are stored in the table section.
             None => section_header.next_offset,
         };
-        let last_chunk_data_size: u32 =
-            (last_chunk_data_end_offset - last_chunk_data_offset) as u32;
+        let last_chunk_data_size: u32 = match last_chunk_data_end_offset
+            .checked_sub(last_chunk_data_offset)
+            .and_then(|size| u32::try_from(size).ok())
+        {
+            Some(last_chunk_data_size) => last_chunk_data_size,
+            None => {
+                return Err(keramics_core::error_trace_new!(
+                    "Unsupported last chunk data size value out of bounds"
+                ));
+            }
+        };
 
         let block_range_type: EwfBlockRangeType = if chunk_is_compressed {
             EwfBlockRangeType::Compressed
@@ -988,7 +1006,15 @@ impl EwfImage {
                 )));
             }
         }
-        self.block_size = self.sectors_per_chunk * self.bytes_per_sector;
+        self.block_size = match self.sectors_per_chunk.checked_mul(self.bytes_per_sector) {
+            Some(block_size) if block_size > 0 => block_size,
+            _ => {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Unsupported sectors per chunk: {} or bytes per sector: {} value out of bounds",
+                    self.sectors_per_chunk, self.bytes_per_sector
+                )));
+            }
+        };
         self.media_size = (self.number_of_sectors as u64) * (self.bytes_per_sector as u64);
 
         let block_tree_data_size: u64 = (self.number_of_chunks as u64) * (self.block_size as u64);
-- 
2.43.0


From 887a210fef750d6049287f027236cc0993e38e13 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:42:21 +0000
Subject: [PATCH 081/148] fix: EWF tables with too many entries panic and
 error2 sections are not checked

---
 keramics-formats/src/ewf/constants.rs | 2 +-
 keramics-formats/src/ewf/error2.rs    | 9 +++++++--
 keramics-formats/src/ewf/table.rs     | 7 ++++++-
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/keramics-formats/src/ewf/constants.rs b/keramics-formats/src/ewf/constants.rs
index 39094b4..d56e9f7 100644
--- a/keramics-formats/src/ewf/constants.rs
+++ b/keramics-formats/src/ewf/constants.rs
@@ -37,7 +37,7 @@ pub(super) const EWF_SECTION_TYPE_DONE: [u8; 16] = [
 
 /// EWF error2 section type: "error2\0\0\0\0\0\0\0\0\0\0"
 pub(super) const EWF_SECTION_TYPE_ERROR2: [u8; 16] = [
-    0x65, 0x72, 0x72, 0x6f, 0x72, 0x73, 0x32, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
+    0x65, 0x72, 0x72, 0x6f, 0x72, 0x32, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
 ];
 
 /// EWF hash section type: "hash\0\0\0\0\0\0\0\0\0\0\0\0"
diff --git a/keramics-formats/src/ewf/error2.rs b/keramics-formats/src/ewf/error2.rs
index cc4e9eb..8829e56 100644
--- a/keramics-formats/src/ewf/error2.rs
+++ b/keramics-formats/src/ewf/error2.rs
@@ -55,12 +55,17 @@ impl EwfError2 {
             }
         }
         // TODO: check for empty error2
-        // TODO: check for number of entries exceeding maximum
 
         let mut data_offset: usize = 520;
         let footer_offset: usize = 520 + (error2_header.number_of_entries as usize * 8);
         let footer_end_offset: usize = footer_offset + 4;
 
+        if footer_end_offset > data.len() {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Unsupported number of entries: {} value out of bounds",
+                error2_header.number_of_entries
+            )));
+        }
         let mut error2_footer: EwfError2Footer = EwfError2Footer::new();
 
         if self.mediator.debug_output {
@@ -120,7 +125,7 @@ impl EwfError2 {
         position: SeekFrom,
     ) -> Result<(), ErrorTrace> {
         // Note that 16777216 is an arbitrary chosen limit.
-        if data_size < 28 || data_size > 16777216 {
+        if data_size < 524 || data_size > 16777216 {
             return Err(keramics_core::error_trace_new!(format!(
                 "Unsupported error2 data size: {} value out of bounds",
                 data_size
diff --git a/keramics-formats/src/ewf/table.rs b/keramics-formats/src/ewf/table.rs
index 4eedf34..cea0a16 100644
--- a/keramics-formats/src/ewf/table.rs
+++ b/keramics-formats/src/ewf/table.rs
@@ -59,7 +59,6 @@ impl EwfTable {
             }
         }
         // TODO: check for empty table
-        // TODO: check for number of entries exceeding maximum
 
         self.base_offset = table_header.base_offset;
 
@@ -67,6 +66,12 @@ impl EwfTable {
         let footer_offset: usize = 24 + (table_header.number_of_entries as usize * 4);
         let footer_end_offset: usize = footer_offset + 4;
 
+        if footer_end_offset > data.len() {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Unsupported number of entries: {} value out of bounds",
+                table_header.number_of_entries
+            )));
+        }
         let mut table_footer: EwfTableFooter = EwfTableFooter::new();
 
         if self.mediator.debug_output {
-- 
2.43.0


From 776da3d640564c7f3161af0bfcd357d018460bfd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:42:29 +0000
Subject: [PATCH 082/148] fix: EWF tables without a footer or with more than 16
 MiB of chunks cannot be read

---
 keramics-formats/src/ewf/image.rs | 12 ++++--
 keramics-formats/src/ewf/table.rs | 62 ++++++++++++++++++-------------
 2 files changed, 44 insertions(+), 30 deletions(-)

diff --git a/keramics-formats/src/ewf/image.rs b/keramics-formats/src/ewf/image.rs
index 6439097..e3acb01 100644
--- a/keramics-formats/src/ewf/image.rs
+++ b/keramics-formats/src/ewf/image.rs
@@ -77,6 +77,9 @@ pub struct EwfImage {
     /// Block (or chunk) size.
     block_size: u32,
 
+    /// Value to indicate tables have a footer, which those of EWF-S01 do not.
+    has_table_footer: bool,
+
     /// Block tree.
     block_tree: BlockTree<EwfBlockRange>,
 
@@ -120,6 +123,7 @@ impl EwfImage {
             bytes_per_sector: 0,
             number_of_sectors: 0,
             block_size: 0,
+            has_table_footer: true,
             block_tree: BlockTree::<EwfBlockRange>::new(0, 0, 0),
             block_cache: LruCache::new(64),
             error_granularity: 0,
@@ -351,10 +355,7 @@ impl EwfImage {
                 {
                     Ok((_, _, file)) => file,
                     Err(mut error) => {
-                        keramics_core::error_trace_add_frame!(
-                            error,
-                            "Unable to open segment file"
-                        );
+                        keramics_core::error_trace_add_frame!(error, "Unable to open segment file");
                         return Err(error);
                     }
                 };
@@ -646,6 +647,7 @@ impl EwfImage {
                 }
                 &EWF_SECTION_TYPE_TABLE2 => {
                     let mut table2: EwfTable = EwfTable::new();
+                    table2.has_footer = self.has_table_footer;
 
                     match table2.read_at_position(
                         &data_stream,
@@ -763,6 +765,7 @@ impl EwfImage {
         let mut safe_block_media_offset: u64 = *block_media_offset;
 
         let mut table: EwfTable = EwfTable::new();
+        table.has_footer = self.has_table_footer;
 
         match table.read_at_position(
             &data_stream,
@@ -972,6 +975,7 @@ impl EwfImage {
                 self.sectors_per_chunk = volume.sectors_per_chunk;
                 self.bytes_per_sector = volume.bytes_per_sector;
                 self.number_of_sectors = volume.number_of_sectors;
+                self.has_table_footer = false;
             }
             1128 => {
                 let mut volume: EwfE01Volume = EwfE01Volume::new();
diff --git a/keramics-formats/src/ewf/table.rs b/keramics-formats/src/ewf/table.rs
index cea0a16..bbe1dd6 100644
--- a/keramics-formats/src/ewf/table.rs
+++ b/keramics-formats/src/ewf/table.rs
@@ -11,6 +11,7 @@
  * under the License.
  */
 
+use std::cmp::min;
 use std::io::SeekFrom;
 
 use keramics_checksums::Adler32Context;
@@ -26,6 +27,9 @@ pub struct EwfTable {
     /// Mediator.
     mediator: MediatorReference,
 
+    /// Value to indicate the entries are followed by a footer.
+    pub has_footer: bool,
+
     /// Base offset.
     pub base_offset: u64,
 
@@ -38,6 +42,7 @@ impl EwfTable {
     pub fn new() -> Self {
         Self {
             mediator: Mediator::current(),
+            has_footer: true,
             base_offset: 0,
             entries: Vec::new(),
         }
@@ -64,7 +69,7 @@ impl EwfTable {
 
         let mut data_offset: usize = 24;
         let footer_offset: usize = 24 + (table_header.number_of_entries as usize * 4);
-        let footer_end_offset: usize = footer_offset + 4;
+        let footer_end_offset: usize = footer_offset + if self.has_footer { 4 } else { 0 };
 
         if footer_end_offset > data.len() {
             return Err(keramics_core::error_trace_new!(format!(
@@ -72,29 +77,31 @@ impl EwfTable {
                 table_header.number_of_entries
             )));
         }
-        let mut table_footer: EwfTableFooter = EwfTableFooter::new();
+        if self.has_footer {
+            let mut table_footer: EwfTableFooter = EwfTableFooter::new();
 
-        if self.mediator.debug_output {
-            self.mediator.debug_print(EwfTableFooter::debug_read_data(
-                &data[footer_offset..footer_end_offset],
-            ));
-        }
-        match table_footer.read_data(&data[footer_offset..footer_end_offset]) {
-            Ok(_) => {}
-            Err(mut error) => {
-                keramics_core::error_trace_add_frame!(error, "Unable to read table footer");
-                return Err(error);
+            if self.mediator.debug_output {
+                self.mediator.debug_print(EwfTableFooter::debug_read_data(
+                    &data[footer_offset..footer_end_offset],
+                ));
+            }
+            match table_footer.read_data(&data[footer_offset..footer_end_offset]) {
+                Ok(_) => {}
+                Err(mut error) => {
+                    keramics_core::error_trace_add_frame!(error, "Unable to read table footer");
+                    return Err(error);
+                }
+            }
+            let mut adler32_context: Adler32Context = Adler32Context::new(1);
+            adler32_context.update(&data[data_offset..footer_offset]);
+            let calculated_checksum: u32 = adler32_context.finalize();
+
+            if table_footer.checksum != calculated_checksum {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Mismatch between stored: 0x{:08x} and calculated: 0x{:08x} checksums",
+                    table_footer.checksum, calculated_checksum
+                )));
             }
-        }
-        let mut adler32_context: Adler32Context = Adler32Context::new(1);
-        adler32_context.update(&data[data_offset..footer_offset]);
-        let calculated_checksum: u32 = adler32_context.finalize();
-
-        if table_footer.checksum != calculated_checksum {
-            return Err(keramics_core::error_trace_new!(format!(
-                "Mismatch between stored: 0x{:08x} and calculated: 0x{:08x} checksums",
-                table_footer.checksum, calculated_checksum
-            )));
         }
         for entry_index in 0..table_header.number_of_entries {
             let data_end_offset: usize = data_offset + 4;
@@ -130,21 +137,24 @@ impl EwfTable {
         data_size: u64,
         position: SeekFrom,
     ) -> Result<(), ErrorTrace> {
-        // Note that 16777216 is an arbitrary chosen limit.
-        if data_size < 28 || data_size > 16777216 {
+        if data_size < 24 {
             return Err(keramics_core::error_trace_new!(format!(
                 "Unsupported table data size: {} value out of bounds",
                 data_size
             )));
         }
-        let mut data: Vec<u8> = vec![0; data_size as usize];
+        // Note that the table can be followed by chunks and that 16777216 is an arbitrary chosen
+        // limit.
+        let mut data: Vec<u8> = vec![0; min(data_size, 16777216) as usize];
 
         let offset: u64 =
             keramics_core::data_stream_read_exact_at_position!(data_stream, &mut data, position);
         if self.mediator.debug_output {
             self.mediator.debug_print(format!(
                 "EwfTable data of size: {} at offset: {} (0x{:08x})\n",
-                data_size, offset, offset
+                data.len(),
+                offset,
+                offset
             ));
             self.mediator.debug_print_data(&data, true);
         }
-- 
2.43.0


From 4541234284de9a2fd750d1f15c36c564d60d0e8c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:43:00 +0000
Subject: [PATCH 083/148] fix: EWF headers that compress well cannot be read

---
 keramics-formats/src/ewf/header.rs  | 22 +++++++++++++++++-----
 keramics-formats/src/ewf/header2.rs | 24 ++++++++++++++++++------
 2 files changed, 35 insertions(+), 11 deletions(-)

diff --git a/keramics-formats/src/ewf/header.rs b/keramics-formats/src/ewf/header.rs
index ca8ccfc..bc91e95 100644
--- a/keramics-formats/src/ewf/header.rs
+++ b/keramics-formats/src/ewf/header.rs
@@ -50,13 +50,25 @@ impl EwfHeader {
 
         let mut zlib_context: ZlibContext = ZlibContext::new();
 
-        match zlib_context.decompress(data, &mut header_data) {
-            Ok(_) => {}
-            Err(mut error) => {
-                keramics_core::error_trace_add_frame!(error, "Unable to decompress header data");
-                return Err(error);
+        loop {
+            match zlib_context.decompress(data, &mut header_data) {
+                Ok(_) => break,
+                Err(mut error) => {
+                    // Note that 16777216 is an arbitrary chosen limit.
+                    if header_data.len() >= 16777216 {
+                        keramics_core::error_trace_add_frame!(
+                            error,
+                            "Unable to decompress header data"
+                        );
+                        return Err(error);
+                    }
+                }
             }
+            header_data = vec![0; header_data.len() * 4];
+            zlib_context = ZlibContext::new();
         }
+        header_data.truncate(zlib_context.uncompressed_data_size);
+
         if self.mediator.debug_output {
             self.mediator.debug_print(format!(
                 "Uncompressed header data of size: {}\n",
diff --git a/keramics-formats/src/ewf/header2.rs b/keramics-formats/src/ewf/header2.rs
index a8530d2..561e613 100644
--- a/keramics-formats/src/ewf/header2.rs
+++ b/keramics-formats/src/ewf/header2.rs
@@ -52,13 +52,25 @@ impl EwfHeader2 {
 
         let mut zlib_context: ZlibContext = ZlibContext::new();
 
-        match zlib_context.decompress(data, &mut header2_data) {
-            Ok(_) => {}
-            Err(mut error) => {
-                keramics_core::error_trace_add_frame!(error, "Unable to decompress header2 data");
-                return Err(error);
+        loop {
+            match zlib_context.decompress(data, &mut header2_data) {
+                Ok(_) => break,
+                Err(mut error) => {
+                    // Note that 16777216 is an arbitrary chosen limit.
+                    if header2_data.len() >= 16777216 {
+                        keramics_core::error_trace_add_frame!(
+                            error,
+                            "Unable to decompress header2 data"
+                        );
+                        return Err(error);
+                    }
+                }
             }
+            header2_data = vec![0; header2_data.len() * 4];
+            zlib_context = ZlibContext::new();
         }
+        header2_data.truncate(zlib_context.uncompressed_data_size);
+
         if self.mediator.debug_output {
             self.mediator.debug_print(format!(
                 "Uncompressed header2 data of size: {}\n",
@@ -68,7 +80,7 @@ impl EwfHeader2 {
         }
         let mut header2_data_offset: usize = 0;
 
-        let byte_order: ByteOrder = match &header2_data[0..2] {
+        let byte_order: ByteOrder = match header2_data.get(0..2).unwrap_or(&[]) {
             [0xfe, 0xff] => {
                 header2_data_offset += 2;
 
-- 
2.43.0


From 3a3a74944b8cb81c07dc63ac75ba27f057e72f07 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:43:21 +0000
Subject: [PATCH 084/148] fix: EWF header2 dates that are empty or out of
 bounds

---
 keramics-formats/src/ewf/object_storage.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/keramics-formats/src/ewf/object_storage.rs b/keramics-formats/src/ewf/object_storage.rs
index a1c227a..8a284c9 100644
--- a/keramics-formats/src/ewf/object_storage.rs
+++ b/keramics-formats/src/ewf/object_storage.rs
@@ -99,7 +99,7 @@ impl<'a> EwfUtf16ObjectStorage<'a> {
         let start_offset: usize = self.data_offset;
 
         let mut last_value_16bit: u16 = 0;
-        while self.data_offset < self.data_size {
+        while self.data_offset + 1 < self.data_size {
             let value_16bit: u16 = match self.byte_order {
                 ByteOrder::BigEndian => bytes_to_u16_be!(self.data, self.data_offset),
                 ByteOrder::LittleEndian => bytes_to_u16_le!(self.data, self.data_offset),
@@ -126,15 +126,19 @@ impl<'a> EwfUtf16ObjectStorage<'a> {
     /// Parses an object storage date value.
     pub fn parse_date_value(value: &[u16]) -> Option<i32> {
         // Note that the EnCase documentation indicates that the Date type is unsigned.
+        // A date that is not set is empty.
+        if value.is_empty() {
+            return None;
+        }
         let mut timestamp: i32 = 0;
 
         for value_16bit in value.iter() {
-            timestamp *= 10;
-
             if *value_16bit < 0x0030 || *value_16bit > 0x0039 {
                 return None;
             }
-            timestamp += *value_16bit as i32 - 0x0030;
+            timestamp = timestamp
+                .checked_mul(10)?
+                .checked_add(*value_16bit as i32 - 0x0030)?;
         }
         Some(timestamp)
     }
-- 
2.43.0


From 9cab4164bb82ea411838548964afaae73fd69214 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:43:22 +0000
Subject: [PATCH 085/148] fix: EWF images of media with 2^32 or more sectors
 are cut

---
 keramics-formats/src/ewf/image.rs  | 17 ++++++++++++++---
 keramics-formats/src/ewf/volume.rs |  6 +++---
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/keramics-formats/src/ewf/image.rs b/keramics-formats/src/ewf/image.rs
index e3acb01..3085cbf 100644
--- a/keramics-formats/src/ewf/image.rs
+++ b/keramics-formats/src/ewf/image.rs
@@ -72,7 +72,7 @@ pub struct EwfImage {
     pub bytes_per_sector: u32,
 
     /// Number of sectors.
-    pub number_of_sectors: u32,
+    pub number_of_sectors: u64,
 
     /// Block (or chunk) size.
     block_size: u32,
@@ -974,7 +974,7 @@ impl EwfImage {
                 self.number_of_chunks = volume.number_of_chunks;
                 self.sectors_per_chunk = volume.sectors_per_chunk;
                 self.bytes_per_sector = volume.bytes_per_sector;
-                self.number_of_sectors = volume.number_of_sectors;
+                self.number_of_sectors = volume.number_of_sectors as u64;
                 self.has_table_footer = false;
             }
             1128 => {
@@ -1019,7 +1019,18 @@ impl EwfImage {
                 )));
             }
         };
-        self.media_size = (self.number_of_sectors as u64) * (self.bytes_per_sector as u64);
+        self.media_size = match self
+            .number_of_sectors
+            .checked_mul(self.bytes_per_sector as u64)
+        {
+            Some(media_size) => media_size,
+            None => {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Unsupported number of sectors: {} value out of bounds",
+                    self.number_of_sectors
+                )));
+            }
+        };
 
         let block_tree_data_size: u64 = (self.number_of_chunks as u64) * (self.block_size as u64);
 
diff --git a/keramics-formats/src/ewf/volume.rs b/keramics-formats/src/ewf/volume.rs
index c56d4c7..e9cf842 100644
--- a/keramics-formats/src/ewf/volume.rs
+++ b/keramics-formats/src/ewf/volume.rs
@@ -14,7 +14,7 @@
 use keramics_checksums::Adler32Context;
 use keramics_core::ErrorTrace;
 use keramics_layout_map::LayoutMap;
-use keramics_types::{Uuid, bytes_to_u32_le};
+use keramics_types::{Uuid, bytes_to_u32_le, bytes_to_u64_le};
 
 #[derive(LayoutMap)]
 #[layout_map(
@@ -61,7 +61,7 @@ pub struct EwfE01Volume {
     pub bytes_per_sector: u32,
 
     /// Number of sectors.
-    pub number_of_sectors: u32,
+    pub number_of_sectors: u64,
 
     /// Media flags.
     pub media_flags: u8,
@@ -115,7 +115,7 @@ impl EwfE01Volume {
         self.number_of_chunks = bytes_to_u32_le!(data, 4);
         self.sectors_per_chunk = bytes_to_u32_le!(data, 8);
         self.bytes_per_sector = bytes_to_u32_le!(data, 12);
-        self.number_of_sectors = bytes_to_u32_le!(data, 16);
+        self.number_of_sectors = bytes_to_u64_le!(data, 16);
         self.media_flags = data[36];
         self.compression_level = data[52];
         self.error_granularity = bytes_to_u32_le!(data, 56);
-- 
2.43.0


From 543bb568a0542a1fe0d5f4438e1adf699b0ac338 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:43:22 +0000
Subject: [PATCH 086/148] fix: extension and stem of file names with non-ASCII
 characters

---
 keramics-formats/src/path_component.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/keramics-formats/src/path_component.rs b/keramics-formats/src/path_component.rs
index 0e4536e..6cfb3f7 100644
--- a/keramics-formats/src/path_component.rs
+++ b/keramics-formats/src/path_component.rs
@@ -30,10 +30,9 @@ impl PathComponent {
                 if string.is_empty() {
                     None
                 } else {
-                    match string[1..].chars().rev().position(|value| value == '.') {
+                    match string.rfind('.').filter(|value_index| *value_index > 0) {
                         Some(value_index) => {
-                            // Note that value_index is relative to end of the string.
-                            let string_index: usize = string.len() - value_index;
+                            let string_index: usize = value_index + 1;
                             Some(PathComponent::String(string[string_index..].to_string()))
                         }
                         None => None,
@@ -51,11 +50,9 @@ impl PathComponent {
                 if string.is_empty() {
                     None
                 } else {
-                    match string[1..].chars().rev().position(|value| value == '.') {
+                    match string.rfind('.').filter(|value_index| *value_index > 0) {
                         Some(value_index) => {
-                            // Note that value_index is relative to end of the string.
-                            let string_size: usize = string.len() - value_index - 1;
-                            Some(PathComponent::String(string[0..string_size].to_string()))
+                            Some(PathComponent::String(string[0..value_index].to_string()))
                         }
                         None => Some(PathComponent::String(string.clone())),
                     }
-- 
2.43.0


From 629fba2601136aa6afdd30448b4ce3f2fae1a08c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:04:30 +0000
Subject: [PATCH 087/148] fix: FAT cluster count includes the root directory
 and misses the last clusters

---
 keramics-formats/src/fat/file_system.rs | 28 +++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/keramics-formats/src/fat/file_system.rs b/keramics-formats/src/fat/file_system.rs
index b0f846a..20bcc24 100644
--- a/keramics-formats/src/fat/file_system.rs
+++ b/keramics-formats/src/fat/file_system.rs
@@ -368,10 +368,25 @@ impl FatFileSystem {
         if !boot_record.volume_label.is_empty() {
             self.volume_label = Some(boot_record.volume_label)
         }
-        let mut number_of_clusters: u64 = (boot_record.number_of_sectors as u64)
-            - (boot_record.number_of_reserved_sectors as u64);
-        number_of_clusters -= (boot_record.number_of_allocation_tables as u64)
-            * (boot_record.allocation_table_size as u64);
+        let root_directory_number_of_sectors: u64 =
+            ((boot_record.number_of_root_directory_entries as u64) * 32)
+                .div_ceil(boot_record.bytes_per_sector as u64);
+
+        let number_of_metadata_sectors: u64 = (boot_record.number_of_reserved_sectors as u64)
+            + ((boot_record.number_of_allocation_tables as u64)
+                * (boot_record.allocation_table_size as u64))
+            + root_directory_number_of_sectors;
+
+        let mut number_of_clusters: u64 =
+            match (boot_record.number_of_sectors as u64).checked_sub(number_of_metadata_sectors) {
+                Some(number_of_data_sectors) => number_of_data_sectors,
+                None => {
+                    return Err(keramics_core::error_trace_new!(format!(
+                        "Unsupported number of sectors: {} value out of bounds",
+                        boot_record.number_of_sectors
+                    )));
+                }
+            };
         number_of_clusters /= boot_record.sectors_per_cluster_block as u64;
 
         self.format =
@@ -396,12 +411,13 @@ impl FatFileSystem {
         if self.root_directory_cluster_block_number == 0 {
             self.root_directory_offset = self.first_cluster_offset;
             self.root_directory_size = (boot_record.number_of_root_directory_entries as u32) * 32;
-            self.first_cluster_offset += self.root_directory_size as u64;
+            self.first_cluster_offset +=
+                root_directory_number_of_sectors * (boot_record.bytes_per_sector as u64);
         }
         self.block_allocation_table = Some(Arc::new(FatBlockAllocationTable::new(
             &self.format,
             allocation_table_offset,
-            number_of_clusters as u32,
+            (number_of_clusters + 2) as u32,
             self.first_cluster_offset,
             self.cluster_block_size,
         )));
-- 
2.43.0


From 9ac4bc895d4bc411eeafccc0b8a2866b2aab0dff Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:04:30 +0000
Subject: [PATCH 088/148] fix: reserved bits of FAT32 allocation table entries
 are part of the cluster number

---
 keramics-formats/src/fat/block_allocation_table.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/keramics-formats/src/fat/block_allocation_table.rs b/keramics-formats/src/fat/block_allocation_table.rs
index 30da809..e7fcd4b 100644
--- a/keramics-formats/src/fat/block_allocation_table.rs
+++ b/keramics-formats/src/fat/block_allocation_table.rs
@@ -106,9 +106,8 @@ impl FatBlockAllocationTable {
                 }
             }
             FatFormat::Fat16 => bytes_to_u16_le!(data, 0) as u32,
-            FatFormat::Fat32 => {
-                bytes_to_u32_le!(data, 0)
-            }
+            // Note that the upper 4 bits are reserved.
+            FatFormat::Fat32 => bytes_to_u32_le!(data, 0) & 0x0fffffff,
         };
         if self.mediator.debug_output {
             self.mediator
-- 
2.43.0


From 86538d8614f6e5b7a5cc65ed3f376f8e06cd5737 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:04:30 +0000
Subject: [PATCH 089/148] fix: FAT cluster chains end silently at free, bad or
 nonexistent clusters

---
 .../src/fat/block_allocation_table.rs         | 46 ++++++++++++++---
 keramics-formats/src/fat/block_stream.rs      | 51 ++++++++++++-------
 keramics-formats/src/fat/directory_entries.rs | 43 +++++++++-------
 3 files changed, 100 insertions(+), 40 deletions(-)

diff --git a/keramics-formats/src/fat/block_allocation_table.rs b/keramics-formats/src/fat/block_allocation_table.rs
index e7fcd4b..fab93ab 100644
--- a/keramics-formats/src/fat/block_allocation_table.rs
+++ b/keramics-formats/src/fat/block_allocation_table.rs
@@ -59,13 +59,47 @@ impl FatBlockAllocationTable {
         }
     }
 
-    /// Retrieves the largest cluster block number.
-    pub fn get_largest_cluster_block_number(&self) -> u32 {
-        match &self.format {
-            FatFormat::Fat12 => 0x00000ff0,
-            FatFormat::Fat16 => 0x0000fff0,
-            FatFormat::Fat32 => 0x0ffffff0,
+    /// Determines if a cluster block number is that of a cluster block of the volume.
+    pub fn is_valid_cluster_block_number(&self, cluster_block_number: u32) -> bool {
+        cluster_block_number >= 2 && cluster_block_number < self.number_of_entries
+    }
+
+    /// Retrieves the offset of a cluster block.
+    pub fn get_cluster_block_offset(&self, cluster_block_number: u32) -> Result<u64, ErrorTrace> {
+        if !self.is_valid_cluster_block_number(cluster_block_number) {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Unsupported cluster block number: {} value out of bounds",
+                cluster_block_number
+            )));
+        }
+        Ok(self.first_cluster_offset
+            + (((cluster_block_number - 2) as u64) * (self.cluster_block_size as u64)))
+    }
+
+    /// Reads the number of the cluster block that follows a specific cluster block, where None
+    /// represents the end of the cluster block chain.
+    pub fn read_next_cluster_block_number(
+        &self,
+        data_stream: &DataStreamReference,
+        cluster_block_number: u32,
+    ) -> Result<Option<u32>, ErrorTrace> {
+        let entry: u32 = self.read_entry(data_stream, cluster_block_number)?;
+
+        let end_of_chain_marker: u32 = match &self.format {
+            FatFormat::Fat12 => 0x00000ff8,
+            FatFormat::Fat16 => 0x0000fff8,
+            FatFormat::Fat32 => 0x0ffffff8,
+        };
+        if entry >= end_of_chain_marker {
+            return Ok(None);
+        }
+        if !self.is_valid_cluster_block_number(entry) {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid cluster block chain: cluster block: {} followed by unsupported: {}",
+                cluster_block_number, entry
+            )));
         }
+        Ok(Some(entry))
     }
 
     /// Reads a block allocation table entry.
diff --git a/keramics-formats/src/fat/block_stream.rs b/keramics-formats/src/fat/block_stream.rs
index 1b70c70..a0dbb3e 100644
--- a/keramics-formats/src/fat/block_stream.rs
+++ b/keramics-formats/src/fat/block_stream.rs
@@ -59,8 +59,7 @@ impl FatBlockStream {
         block_allocation_table: &Arc<FatBlockAllocationTable>,
         mut cluster_block_number: u32,
     ) -> Result<(), ErrorTrace> {
-        let largest_cluster_block_number: u32 =
-            block_allocation_table.get_largest_cluster_block_number();
+        
 
         let block_tree_data_size: u64 =
             (self.size.div_ceil(self.block_size) as u64) * (self.block_size as u64);
@@ -70,16 +69,24 @@ impl FatBlockStream {
         let mut read_cluster_block_numbers: HashSet<u32> = HashSet::new();
         let mut logical_offset: u64 = 0;
 
-        while cluster_block_number >= 2 && cluster_block_number < largest_cluster_block_number {
+        while logical_offset < self.size as u64 {
             if read_cluster_block_numbers.contains(&cluster_block_number) {
                 return Err(keramics_core::error_trace_new!(format!(
                     "Cluster block: {} already read",
                     cluster_block_number
                 )));
             }
-            let physical_offset: u64 = block_allocation_table.first_cluster_offset
-                + (((cluster_block_number - 2) as u64)
-                    * (block_allocation_table.cluster_block_size as u64));
+            let physical_offset: u64 =
+                match block_allocation_table.get_cluster_block_offset(cluster_block_number) {
+                    Ok(offset) => offset,
+                    Err(mut error) => {
+                        keramics_core::error_trace_add_frame!(
+                            error,
+                            "Unable to determine cluster block offset"
+                        );
+                        return Err(error);
+                    }
+                };
 
             // TODO: merge successive blocks into a single range
             let block_range: FatBlockRange =
@@ -101,17 +108,27 @@ impl FatBlockStream {
 
             read_cluster_block_numbers.insert(cluster_block_number);
 
-            cluster_block_number =
-                match block_allocation_table.read_entry(data_stream, cluster_block_number) {
-                    Ok(entry) => entry,
-                    Err(mut error) => {
-                        keramics_core::error_trace_add_frame!(
-                            error,
-                            "Unable to read next cluster block number from block allocation table"
-                        );
-                        return Err(error);
-                    }
-                };
+            if logical_offset >= self.size as u64 {
+                break;
+            }
+            cluster_block_number = match block_allocation_table
+                .read_next_cluster_block_number(data_stream, cluster_block_number)
+            {
+                Ok(Some(next_cluster_block_number)) => next_cluster_block_number,
+                Ok(None) => {
+                    return Err(keramics_core::error_trace_new!(format!(
+                        "Cluster block chain ends at: {} before end of data at: {}",
+                        logical_offset, self.size
+                    )));
+                }
+                Err(mut error) => {
+                    keramics_core::error_trace_add_frame!(
+                        error,
+                        "Unable to read next cluster block number from block allocation table"
+                    );
+                    return Err(error);
+                }
+            };
         }
         self.data_stream = Some(data_stream.clone());
 
diff --git a/keramics-formats/src/fat/directory_entries.rs b/keramics-formats/src/fat/directory_entries.rs
index 524f5ac..1b2b992 100644
--- a/keramics-formats/src/fat/directory_entries.rs
+++ b/keramics-formats/src/fat/directory_entries.rs
@@ -216,8 +216,7 @@ impl FatDirectoryEntries {
         block_allocation_table: &Arc<FatBlockAllocationTable>,
         mut cluster_block_number: u32,
     ) -> Result<(), ErrorTrace> {
-        let largest_cluster_block_number: u32 =
-            block_allocation_table.get_largest_cluster_block_number();
+        
 
         let mut data: Vec<u8> = vec![0; block_allocation_table.cluster_block_size as usize];
 
@@ -225,16 +224,24 @@ impl FatDirectoryEntries {
         let mut last_vfat_sequence_number: u8 = 0;
         let mut long_name_entries: Vec<FatLongNameDirectoryEntry> = Vec::new();
 
-        while cluster_block_number >= 2 && cluster_block_number < largest_cluster_block_number {
+        loop {
             if read_cluster_block_numbers.contains(&cluster_block_number) {
                 return Err(keramics_core::error_trace_new!(format!(
                     "Cluster block: {} already read",
                     cluster_block_number
                 )));
             }
-            let offset: u64 = block_allocation_table.first_cluster_offset
-                + (((cluster_block_number - 2) as u64)
-                    * (block_allocation_table.cluster_block_size as u64));
+            let offset: u64 =
+                match block_allocation_table.get_cluster_block_offset(cluster_block_number) {
+                    Ok(offset) => offset,
+                    Err(mut error) => {
+                        keramics_core::error_trace_add_frame!(
+                            error,
+                            "Unable to determine cluster block offset"
+                        );
+                        return Err(error);
+                    }
+                };
 
             keramics_core::data_stream_read_exact_at_position!(
                 data_stream,
@@ -268,17 +275,19 @@ impl FatDirectoryEntries {
             }
             read_cluster_block_numbers.insert(cluster_block_number);
 
-            cluster_block_number =
-                match block_allocation_table.read_entry(data_stream, cluster_block_number) {
-                    Ok(entry) => entry,
-                    Err(mut error) => {
-                        keramics_core::error_trace_add_frame!(
-                            error,
-                            "Unable to read next cluster block number from block allocation table"
-                        );
-                        return Err(error);
-                    }
-                };
+            cluster_block_number = match block_allocation_table
+                .read_next_cluster_block_number(data_stream, cluster_block_number)
+            {
+                Ok(Some(next_cluster_block_number)) => next_cluster_block_number,
+                Ok(None) => break,
+                Err(mut error) => {
+                    keramics_core::error_trace_add_frame!(
+                        error,
+                        "Unable to read next cluster block number from block allocation table"
+                    );
+                    return Err(error);
+                }
+            };
         }
         self.is_read = true;
 
-- 
2.43.0


From 61bf7eda708eda1ceb8d18fff485b71906db07e3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:05:03 +0000
Subject: [PATCH 090/148] fix: FAT directories do not end at their terminator

---
 keramics-formats/src/fat/directory_entries.rs    | 15 +++++++++------
 keramics-formats/src/fat/directory_entry_type.rs |  6 +++---
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/keramics-formats/src/fat/directory_entries.rs b/keramics-formats/src/fat/directory_entries.rs
index 1b2b992..21c86bc 100644
--- a/keramics-formats/src/fat/directory_entries.rs
+++ b/keramics-formats/src/fat/directory_entries.rs
@@ -100,7 +100,8 @@ impl FatDirectoryEntries {
         mut directory_entry_offset: u64,
         last_vfat_sequence_number: &mut u8,
         long_name_entries: &mut Vec<FatLongNameDirectoryEntry>,
-    ) -> Result<(), ErrorTrace> {
+    ) -> Result<bool, ErrorTrace> {
+        let mut is_terminated: bool = false;
         let mut safe_last_vfat_sequence_number: u8 = *last_vfat_sequence_number;
 
         let mut data_offset: usize = 0;
@@ -195,6 +196,7 @@ impl FatDirectoryEntries {
                     }
                 }
                 FatDirectoryEntryType::Terminator => {
+                    is_terminated = true;
                     break;
                 }
                 FatDirectoryEntryType::Unallocated => {
@@ -206,7 +208,7 @@ impl FatDirectoryEntries {
         }
         *last_vfat_sequence_number = safe_last_vfat_sequence_number;
 
-        Ok(())
+        Ok(is_terminated)
     }
 
     /// Reads the directories entries starting at a specific cluster block in a data stream.
@@ -261,7 +263,8 @@ impl FatDirectoryEntries {
                 &mut last_vfat_sequence_number,
                 &mut long_name_entries,
             ) {
-                Ok(_) => {}
+                Ok(true) => break,
+                Ok(false) => {}
                 Err(mut error) => {
                     keramics_core::error_trace_add_frame!(
                         error,
@@ -326,9 +329,9 @@ impl FatDirectoryEntries {
             &data,
             offset,
             &mut last_vfat_sequence_number,
-            &mut long_name_entries,
-        ) {
-            Ok(_) => {}
+                &mut long_name_entries,
+            ) {
+                Ok(_) => {}
             Err(mut error) => {
                 keramics_core::error_trace_add_frame!(
                     error,
diff --git a/keramics-formats/src/fat/directory_entry_type.rs b/keramics-formats/src/fat/directory_entry_type.rs
index 3a07398..53731ea 100644
--- a/keramics-formats/src/fat/directory_entry_type.rs
+++ b/keramics-formats/src/fat/directory_entry_type.rs
@@ -29,15 +29,15 @@ pub enum FatDirectoryEntryType {
 impl FatDirectoryEntryType {
     /// Reads the directory entry type from a buffer.
     pub fn read_data(data: &[u8]) -> FatDirectoryEntryType {
-        if data[0] == 0xe5 {
+        if data[0] == 0x00 {
+            FatDirectoryEntryType::Terminator
+        } else if data[0] == 0xe5 {
             FatDirectoryEntryType::Unallocated
         } else if data[11..13] == [0x0f, 0x00]
             && data[26..28] == [0x00, 0x00]
             && ((data[0] >= 0x01 && data[0] <= 0x13) || (data[0] >= 0x41 && data[0] <= 0x54))
         {
             FatDirectoryEntryType::LongName
-        } else if data[0..32] == [0; 32] {
-            FatDirectoryEntryType::Terminator
         } else {
             FatDirectoryEntryType::ShortName
         }
-- 
2.43.0


From b9b9a53b5dd72144ea4d104c83720255c3be88c4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:05:36 +0000
Subject: [PATCH 091/148] fix: FAT long names that do not belong to the short
 name entry are used or fail the directory

---
 keramics-formats/src/fat/directory_entries.rs | 33 ++++++++++++++-----
 .../src/fat/directory_entry_type.rs           |  5 +--
 .../src/fat/long_name_directory_entry.rs      |  5 +++
 .../src/fat/short_name_directory_entry.rs     |  9 +++++
 4 files changed, 40 insertions(+), 12 deletions(-)

diff --git a/keramics-formats/src/fat/directory_entries.rs b/keramics-formats/src/fat/directory_entries.rs
index 21c86bc..517d8f0 100644
--- a/keramics-formats/src/fat/directory_entries.rs
+++ b/keramics-formats/src/fat/directory_entries.rs
@@ -146,17 +146,23 @@ impl FatDirectoryEntries {
                     }
                     let vfat_sequence_number: u8 = entry.sequence_number & 0x1f;
 
+                    // Long name entries that are not part of a complete sequence are ignored.
+                    let is_continuation: bool = match long_name_entries.last() {
+                        Some(last_entry) => {
+                            vfat_sequence_number + 1 == safe_last_vfat_sequence_number
+                                && entry.name_checksum == last_entry.name_checksum
+                        }
+                        None => false,
+                    };
                     if entry.sequence_number & 0x40 != 0 {
                         // TODO: warn about incomplete long name entry sequence
                         long_name_entries.clear();
-                    } else if vfat_sequence_number + 1 != safe_last_vfat_sequence_number {
-                        return Err(keramics_core::error_trace_new!(format!(
-                            "VFAT long name sequence number mismatch at offset: {} (0x{:08x})",
-                            directory_entry_offset, directory_entry_offset
-                        )));
+                        long_name_entries.push(entry);
+                    } else if is_continuation {
+                        long_name_entries.push(entry);
+                    } else {
+                        long_name_entries.clear();
                     }
-                    long_name_entries.push(entry);
-
                     safe_last_vfat_sequence_number = vfat_sequence_number;
                 }
                 FatDirectoryEntryType::ShortName => {
@@ -185,15 +191,25 @@ impl FatDirectoryEntries {
                         if entry.name == "." || entry.name == ".." {
                             // TODO: add support to handle special directory entries
                         } else {
+                            let has_long_name: bool = safe_last_vfat_sequence_number == 1
+                                && long_name_entries
+                                    .iter()
+                                    .all(|long_name_entry| {
+                                        long_name_entry.name_checksum == entry.name_checksum
+                                    });
                             let mut directory_entry: FatDirectoryEntry =
                                 FatDirectoryEntry::new(directory_entry_offset as u32, entry);
-                            directory_entry.set_long_name(long_name_entries);
+
+                            if has_long_name {
+                                directory_entry.set_long_name(long_name_entries);
+                            }
 
                             let lookup_name: Ucs2String =
                                 directory_entry.get_lookup_name(&self.case_folding_mappings);
                             self.entries.insert(lookup_name, directory_entry);
                         }
                     }
+                    long_name_entries.clear();
                 }
                 FatDirectoryEntryType::Terminator => {
                     is_terminated = true;
@@ -201,6 +217,7 @@ impl FatDirectoryEntries {
                 }
                 FatDirectoryEntryType::Unallocated => {
                     // TODO: add support for recovering unallocated entries
+                    long_name_entries.clear();
                 }
             }
             data_offset = data_end_offset;
diff --git a/keramics-formats/src/fat/directory_entry_type.rs b/keramics-formats/src/fat/directory_entry_type.rs
index 53731ea..bb1081c 100644
--- a/keramics-formats/src/fat/directory_entry_type.rs
+++ b/keramics-formats/src/fat/directory_entry_type.rs
@@ -33,10 +33,7 @@ impl FatDirectoryEntryType {
             FatDirectoryEntryType::Terminator
         } else if data[0] == 0xe5 {
             FatDirectoryEntryType::Unallocated
-        } else if data[11..13] == [0x0f, 0x00]
-            && data[26..28] == [0x00, 0x00]
-            && ((data[0] >= 0x01 && data[0] <= 0x13) || (data[0] >= 0x41 && data[0] <= 0x54))
-        {
+        } else if data[11] & 0x3f == 0x0f {
             FatDirectoryEntryType::LongName
         } else {
             FatDirectoryEntryType::ShortName
diff --git a/keramics-formats/src/fat/long_name_directory_entry.rs b/keramics-formats/src/fat/long_name_directory_entry.rs
index ed6aaa4..1d2d79c 100644
--- a/keramics-formats/src/fat/long_name_directory_entry.rs
+++ b/keramics-formats/src/fat/long_name_directory_entry.rs
@@ -34,6 +34,9 @@ pub struct FatLongNameDirectoryEntry {
     /// Sequence number
     pub sequence_number: u8,
 
+    /// Name checksum
+    pub name_checksum: u8,
+
     /// Name
     pub name: Ucs2String,
 }
@@ -43,6 +46,7 @@ impl FatLongNameDirectoryEntry {
     pub fn new() -> Self {
         Self {
             sequence_number: 0,
+            name_checksum: 0,
             name: Ucs2String::new(),
         }
     }
@@ -55,6 +59,7 @@ impl FatLongNameDirectoryEntry {
             ));
         }
         self.sequence_number = data[0];
+        self.name_checksum = data[13];
 
         self.name.read_data_le(&data[1..11]);
 
diff --git a/keramics-formats/src/fat/short_name_directory_entry.rs b/keramics-formats/src/fat/short_name_directory_entry.rs
index ee587c3..9e12460 100644
--- a/keramics-formats/src/fat/short_name_directory_entry.rs
+++ b/keramics-formats/src/fat/short_name_directory_entry.rs
@@ -42,6 +42,9 @@ pub struct FatShortNameDirectoryEntry {
     /// Name
     pub name: ByteString,
 
+    /// Name checksum
+    pub name_checksum: u8,
+
     /// File attribute flags.
     pub file_attribute_flags: u8,
 
@@ -69,6 +72,7 @@ impl FatShortNameDirectoryEntry {
     pub fn new() -> Self {
         Self {
             name: ByteString::new_with_encoding(&CharacterEncoding::Ascii),
+            name_checksum: 0,
             file_attribute_flags: 0,
             flags: 0,
             creation_time: DateTime::NotSet,
@@ -86,6 +90,11 @@ impl FatShortNameDirectoryEntry {
                 "Unsupported directory entry data size"
             ));
         }
+        self.name_checksum = data[0..11]
+            .iter()
+            .fold(0, |checksum: u8, value| {
+                checksum.rotate_right(1).wrapping_add(*value)
+            });
         self.file_attribute_flags = data[11];
         self.flags = data[12];
 
-- 
2.43.0


From 6f8acca39b15d7d8528b381616de7f31c40de431 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:05:36 +0000
Subject: [PATCH 092/148] fix: FAT short names that start with 0xe5 are shown
 with 0x05

---
 keramics-formats/src/fat/short_name_directory_entry.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/keramics-formats/src/fat/short_name_directory_entry.rs b/keramics-formats/src/fat/short_name_directory_entry.rs
index 9e12460..57a8391 100644
--- a/keramics-formats/src/fat/short_name_directory_entry.rs
+++ b/keramics-formats/src/fat/short_name_directory_entry.rs
@@ -102,8 +102,11 @@ impl FatShortNameDirectoryEntry {
             Some(data_index) => &data[0..8 - data_index],
             None => &data[0..8],
         };
-        for byte_value in slice.iter() {
-            if self.flags & 0x08 != 0 && *byte_value >= b'A' && *byte_value <= b'Z' {
+        for (byte_index, byte_value) in slice.iter().enumerate() {
+            if byte_index == 0 && *byte_value == 0x05 {
+                // Note that 0xe5 is stored as 0x05 since it marks an unallocated entry.
+                self.name.elements.push(0xe5);
+            } else if self.flags & 0x08 != 0 && *byte_value >= b'A' && *byte_value <= b'Z' {
                 self.name.elements.push(*byte_value + 32);
             } else {
                 self.name.elements.push(*byte_value);
-- 
2.43.0


From 89fde3685c576d02f8ff0f8263da487104fb65aa Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:05:36 +0000
Subject: [PATCH 093/148] fix: FAT volume labels lose spaces before the ninth
 character

---
 .../src/fat/short_name_directory_entry.rs       | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/keramics-formats/src/fat/short_name_directory_entry.rs b/keramics-formats/src/fat/short_name_directory_entry.rs
index 57a8391..d2faa1d 100644
--- a/keramics-formats/src/fat/short_name_directory_entry.rs
+++ b/keramics-formats/src/fat/short_name_directory_entry.rs
@@ -112,11 +112,18 @@ impl FatShortNameDirectoryEntry {
                 self.name.elements.push(*byte_value);
             }
         }
-        if data[8] != 0 && data[8] != b' ' {
-            // Do not add an extension separator for a volume label.
-            if self.file_attribute_flags & 0x58 != FAT_FILE_ATTRIBUTE_FLAG_VOLUME_LABEL {
-                self.name.elements.push(b'.');
-            }
+        if self.file_attribute_flags & 0x58 == FAT_FILE_ATTRIBUTE_FLAG_VOLUME_LABEL {
+            // Note that a volume label has no extension and can contain spaces.
+            self.name.elements.clear();
+
+            let slice: &[u8] = match data[0..11].iter().rposition(|value| *value != b' ') {
+                Some(data_index) => &data[0..data_index + 1],
+                None => &[],
+            };
+            self.name.elements.extend_from_slice(slice);
+        } else if data[8] != 0 && data[8] != b' ' {
+            self.name.elements.push(b'.');
+
             let slice: &[u8] = match data[8..11].iter().rev().position(|value| *value != b' ') {
                 Some(data_index) => &data[8..11 - data_index],
                 None => &data[8..11],
-- 
2.43.0


From 0eca0493f5a73c1dc1d44d8080fd72f55af6094e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:05:55 +0000
Subject: [PATCH 094/148] fix: FAT32 files and directories that start at
 cluster 65536 or beyond

---
 keramics-formats/src/fat/file_entry.rs        | 22 +++++++++++++++----
 .../src/fat/short_name_directory_entry.rs     |  9 ++++++--
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/keramics-formats/src/fat/file_entry.rs b/keramics-formats/src/fat/file_entry.rs
index 09668ba..88d9bef 100644
--- a/keramics-formats/src/fat/file_entry.rs
+++ b/keramics-formats/src/fat/file_entry.rs
@@ -21,6 +21,7 @@ use super::block_stream::FatBlockStream;
 use super::constants::*;
 use super::directory_entries::FatDirectoryEntries;
 use super::directory_entry::FatDirectoryEntry;
+use super::enums::FatFormat;
 use super::string::FatString;
 
 /// File Allocation Table (FAT) file entry.
@@ -75,6 +76,19 @@ impl FatFileEntry {
         }
     }
 
+    /// Retrieves the number of the first cluster block of the data.
+    fn get_data_start_cluster(&self, directory_entry: &FatDirectoryEntry) -> u32 {
+        let data_start_cluster: u32 = directory_entry.short_name.data_start_cluster as u32;
+
+        match &self.block_allocation_table.format {
+            FatFormat::Fat12 | FatFormat::Fat16 => data_start_cluster,
+            FatFormat::Fat32 => {
+                ((directory_entry.short_name.data_start_cluster_upper as u32) << 16)
+                    | data_start_cluster
+            }
+        }
+    }
+
     /// Retrieves the file attribute flags.
     pub fn get_file_attribute_flags(&self) -> u8 {
         match self.directory_entry.as_ref() {
@@ -117,9 +131,9 @@ impl FatFileEntry {
         if self.is_directory() {
             return Ok(None);
         }
-        let (data_start_cluster, data_size): (u16, u32) = match self.directory_entry.as_ref() {
+        let (data_start_cluster, data_size): (u32, u32) = match self.directory_entry.as_ref() {
             Some(directory_entry) => (
-                directory_entry.short_name.data_start_cluster,
+                self.get_data_start_cluster(directory_entry),
                 directory_entry.short_name.data_size,
             ),
             None => (0, 0),
@@ -130,7 +144,7 @@ impl FatFileEntry {
         match block_stream.open(
             &self.data_stream,
             &self.block_allocation_table,
-            data_start_cluster as u32,
+            data_start_cluster,
         ) {
             Ok(_) => {}
             Err(mut error) => {
@@ -253,7 +267,7 @@ impl FatFileEntry {
     /// Reads the sub directory entries.
     fn read_sub_directory_entries(&mut self) -> Result<(), ErrorTrace> {
         let cluster_block_number: u32 = match &self.directory_entry {
-            Some(directory_entry) => directory_entry.short_name.data_start_cluster as u32,
+            Some(directory_entry) => self.get_data_start_cluster(directory_entry),
             None => {
                 return Err(keramics_core::error_trace_new!("Missing directory entry"));
             }
diff --git a/keramics-formats/src/fat/short_name_directory_entry.rs b/keramics-formats/src/fat/short_name_directory_entry.rs
index d2faa1d..e2bea31 100644
--- a/keramics-formats/src/fat/short_name_directory_entry.rs
+++ b/keramics-formats/src/fat/short_name_directory_entry.rs
@@ -29,7 +29,7 @@ use super::constants::*;
         field(name = "flags", data_type = "u8", format = "hex"),
         field(name = "creation_time", data_type = "FatTimeDate10Ms"),
         field(name = "access_date", data_type = "FatDate"),
-        field(name = "unknown2", data_type = "[u8; 2]", format = "hex"),
+        field(name = "data_start_cluster_upper", data_type = "u16"),
         field(name = "modification_time", data_type = "FatTimeDate"),
         field(name = "data_start_cluster", data_type = "u16"),
         field(name = "data_size", data_type = "u32"),
@@ -60,9 +60,12 @@ pub struct FatShortNameDirectoryEntry {
     /// Modifiation date and time.
     pub modification_time: DateTime,
 
-    /// Data start cluster.
+    /// Data start cluster, lower 16 bits.
     pub data_start_cluster: u16,
 
+    /// Data start cluster, upper 16 bits, only used by FAT-32.
+    pub data_start_cluster_upper: u16,
+
     /// Data size.
     pub data_size: u32,
 }
@@ -79,6 +82,7 @@ impl FatShortNameDirectoryEntry {
             access_time: DateTime::NotSet,
             modification_time: DateTime::NotSet,
             data_start_cluster: 0,
+            data_start_cluster_upper: 0,
             data_size: 0,
         }
     }
@@ -140,6 +144,7 @@ impl FatShortNameDirectoryEntry {
         self.access_time = DateTime::FatDate(FatDate::from_bytes(&data[18..20]));
         self.modification_time = DateTime::FatTimeDate(FatTimeDate::from_bytes(&data[22..26]));
 
+        self.data_start_cluster_upper = bytes_to_u16_le!(data, 20);
         self.data_start_cluster = bytes_to_u16_le!(data, 26);
         self.data_size = bytes_to_u32_le!(data, 28);
 
-- 
2.43.0


From 98a915f4642e73eea33569eb691f5151588db867 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:05:55 +0000
Subject: [PATCH 095/148] fix: FAT file names given as byte strings are not
 found when their case differs

---
 keramics-formats/src/fat/string.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/keramics-formats/src/fat/string.rs b/keramics-formats/src/fat/string.rs
index b9b152d..957da5d 100644
--- a/keramics-formats/src/fat/string.rs
+++ b/keramics-formats/src/fat/string.rs
@@ -53,7 +53,14 @@ impl FatString {
                                     "Unable to encode string - code point outside of UCS-2 range"
                                 ));
                             }
-                            lookup_name.elements.push(code_point as u16);
+                            let element: u16 = code_point as u16;
+
+                            lookup_name.elements.push(
+                                match case_folding_mappings.get(&element) {
+                                    Some(folded_element) => *folded_element,
+                                    None => element,
+                                },
+                            );
                         }
                         Err(mut error) => {
                             keramics_core::error_trace_add_frame!(
-- 
2.43.0


From d642ee1b90313652162cbd374ac465b60a7a29c6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:05:55 +0000
Subject: [PATCH 096/148] fix: FAT32 volumes without mirroring are read using
 the wrong allocation table

---
 keramics-formats/src/fat/boot_record.rs       |  4 ++++
 keramics-formats/src/fat/boot_record_fat32.rs | 17 +++++++++++++++++
 keramics-formats/src/fat/file_system.rs       |  3 ++-
 3 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/keramics-formats/src/fat/boot_record.rs b/keramics-formats/src/fat/boot_record.rs
index 2eaa08f..c8fb731 100644
--- a/keramics-formats/src/fat/boot_record.rs
+++ b/keramics-formats/src/fat/boot_record.rs
@@ -40,6 +40,9 @@ pub struct FatBootRecord {
     /// Number of root directory entries.
     pub number_of_root_directory_entries: u16,
 
+    /// Number of the active file allocation table.
+    pub active_allocation_table: u8,
+
     /// File allocation table size.
     pub allocation_table_size: u32,
 
@@ -67,6 +70,7 @@ impl FatBootRecord {
             number_of_sectors: 0,
             number_of_root_directory_entries: 0,
             number_of_allocation_tables: 0,
+            active_allocation_table: 0,
             allocation_table_size: 0,
             root_directory_cluster_block_number: 0,
             volume_serial_number: 0,
diff --git a/keramics-formats/src/fat/boot_record_fat32.rs b/keramics-formats/src/fat/boot_record_fat32.rs
index 37564c4..37e7354 100644
--- a/keramics-formats/src/fat/boot_record_fat32.rs
+++ b/keramics-formats/src/fat/boot_record_fat32.rs
@@ -117,6 +117,23 @@ impl Fat32BootRecord {
         }
         boot_record.number_of_sectors = bytes_to_u32_le!(data, 32);
         boot_record.allocation_table_size = bytes_to_u32_le!(data, 36);
+
+        // Note that without mirroring only one of the allocation tables is in use.
+        let extended_flags: u16 = bytes_to_u16_le!(data, 40);
+
+        boot_record.active_allocation_table = if extended_flags & 0x0080 != 0 {
+            (extended_flags & 0x000f) as u8
+        } else {
+            0
+        };
+        if boot_record.active_allocation_table != 0
+            && boot_record.active_allocation_table >= boot_record.number_of_allocation_tables
+        {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Unsupported active allocation table: {}",
+                boot_record.active_allocation_table
+            )));
+        }
         boot_record.root_directory_cluster_block_number = bytes_to_u32_le!(data, 44);
 
         if boot_record.root_directory_cluster_block_number < 2 {
diff --git a/keramics-formats/src/fat/file_system.rs b/keramics-formats/src/fat/file_system.rs
index 20bcc24..edc9d59 100644
--- a/keramics-formats/src/fat/file_system.rs
+++ b/keramics-formats/src/fat/file_system.rs
@@ -416,7 +416,8 @@ impl FatFileSystem {
         }
         self.block_allocation_table = Some(Arc::new(FatBlockAllocationTable::new(
             &self.format,
-            allocation_table_offset,
+            allocation_table_offset
+                + ((boot_record.active_allocation_table as u64) * allocation_table_size),
             (number_of_clusters + 2) as u32,
             self.first_cluster_offset,
             self.cluster_block_size,
-- 
2.43.0


From e9defd77e63f9e520e549413b54eb71210170ca3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:06:43 +0000
Subject: [PATCH 097/148] fix: identifiers of FAT file entries at 4 GiB or
 beyond are truncated

---
 keramics-formats/src/fat/directory_entries.rs |  2 +-
 keramics-formats/src/fat/directory_entry.rs   |  4 ++--
 keramics-formats/src/fat/file_entry.rs        |  4 ++--
 keramics-formats/src/fat/file_system.rs       | 14 +++++++-------
 keramics-tools/src/info/fat.rs                |  9 ++-------
 5 files changed, 14 insertions(+), 19 deletions(-)

diff --git a/keramics-formats/src/fat/directory_entries.rs b/keramics-formats/src/fat/directory_entries.rs
index 517d8f0..d28ecff 100644
--- a/keramics-formats/src/fat/directory_entries.rs
+++ b/keramics-formats/src/fat/directory_entries.rs
@@ -198,7 +198,7 @@ impl FatDirectoryEntries {
                                         long_name_entry.name_checksum == entry.name_checksum
                                     });
                             let mut directory_entry: FatDirectoryEntry =
-                                FatDirectoryEntry::new(directory_entry_offset as u32, entry);
+                                FatDirectoryEntry::new(directory_entry_offset, entry);
 
                             if has_long_name {
                                 directory_entry.set_long_name(long_name_entries);
diff --git a/keramics-formats/src/fat/directory_entry.rs b/keramics-formats/src/fat/directory_entry.rs
index 7388a97..6349cef 100644
--- a/keramics-formats/src/fat/directory_entry.rs
+++ b/keramics-formats/src/fat/directory_entry.rs
@@ -23,7 +23,7 @@ use super::short_name_directory_entry::FatShortNameDirectoryEntry;
 #[derive(Clone)]
 pub struct FatDirectoryEntry {
     /// Identifier.
-    pub identifier: u32,
+    pub identifier: u64,
 
     /// Short name.
     pub short_name: FatShortNameDirectoryEntry,
@@ -34,7 +34,7 @@ pub struct FatDirectoryEntry {
 
 impl FatDirectoryEntry {
     /// Creates a new directory entry.
-    pub fn new(identifier: u32, short_name: FatShortNameDirectoryEntry) -> Self {
+    pub fn new(identifier: u64, short_name: FatShortNameDirectoryEntry) -> Self {
         Self {
             identifier: identifier,
             short_name: short_name,
diff --git a/keramics-formats/src/fat/file_entry.rs b/keramics-formats/src/fat/file_entry.rs
index 88d9bef..da853b9 100644
--- a/keramics-formats/src/fat/file_entry.rs
+++ b/keramics-formats/src/fat/file_entry.rs
@@ -33,7 +33,7 @@ pub struct FatFileEntry {
     block_allocation_table: Arc<FatBlockAllocationTable>,
 
     /// The identifier.
-    pub identifier: u32,
+    pub identifier: u64,
 
     /// The directory entry.
     directory_entry: Option<FatDirectoryEntry>,
@@ -47,7 +47,7 @@ impl FatFileEntry {
     pub(super) fn new(
         data_stream: &DataStreamReference,
         block_allocation_table: &Arc<FatBlockAllocationTable>,
-        identifier: u32,
+        identifier: u64,
         directory_entry: Option<FatDirectoryEntry>,
         sub_directory_entries: FatDirectoryEntries,
     ) -> Self {
diff --git a/keramics-formats/src/fat/file_system.rs b/keramics-formats/src/fat/file_system.rs
index edc9d59..a9dc235 100644
--- a/keramics-formats/src/fat/file_system.rs
+++ b/keramics-formats/src/fat/file_system.rs
@@ -112,9 +112,9 @@ impl FatFileSystem {
     /// Retrieves the file entry for a specific identifier (inode number).
     pub fn get_file_entry_by_identifier(
         &self,
-        file_entry_identifier: u32,
+        file_entry_identifier: u64,
     ) -> Result<FatFileEntry, ErrorTrace> {
-        if (file_entry_identifier as u64) == self.root_directory_offset {
+        if file_entry_identifier == self.root_directory_offset {
             return self.get_root_directory();
         }
         let data_stream: &DataStreamReference = match self.data_stream.as_ref() {
@@ -215,7 +215,7 @@ impl FatFileSystem {
         Ok(FatFileEntry::new(
             data_stream,
             block_allocation_table,
-            self.root_directory_offset as u32,
+            self.root_directory_offset,
             None,
             directory_entries,
         ))
@@ -242,13 +242,13 @@ impl FatFileSystem {
     fn read_directory_entry_by_identifier(
         &self,
         data_stream: &DataStreamReference,
-        file_entry_identifier: u32,
+        file_entry_identifier: u64,
     ) -> Result<FatDirectoryEntry, ErrorTrace> {
         // TODO: move code into DirectoryEntryScanner
         let mut short_name_entry: FatShortNameDirectoryEntry = FatShortNameDirectoryEntry::new();
 
         match short_name_entry
-            .read_at_position(data_stream, SeekFrom::Start(file_entry_identifier as u64))
+            .read_at_position(data_stream, SeekFrom::Start(file_entry_identifier))
         {
             Ok(_) => {}
             Err(mut error) => {
@@ -262,12 +262,12 @@ impl FatFileSystem {
                 return Err(error);
             }
         }
-        let mut directory_entry_offset: u64 = (file_entry_identifier as u64) - 32;
+        let mut directory_entry_offset: u64 = file_entry_identifier - 32;
 
         let cluster_block_number: u32 = if directory_entry_offset < self.first_cluster_offset {
             0
         } else {
-            (2 + ((file_entry_identifier as u64) - self.first_cluster_offset)
+            (2 + (file_entry_identifier - self.first_cluster_offset)
                 / (self.cluster_block_size as u64)) as u32
         };
         let first_directory_entry_offset: u64 =
diff --git a/keramics-tools/src/info/fat.rs b/keramics-tools/src/info/fat.rs
index 193d065..874aa2c 100644
--- a/keramics-tools/src/info/fat.rs
+++ b/keramics-tools/src/info/fat.rs
@@ -136,14 +136,9 @@ impl FatInfo {
                 return Err(error);
             }
         }
-        if fat_entry_identifier > u32::MAX as u64 {
-            return Err(keramics_core::error_trace_new!(format!(
-                "Unsupported identifier: {} value out of bounds",
-                fat_entry_identifier
-            )));
-        }
+        
         let mut file_entry: FatFileEntry =
-            match fat_file_system.get_file_entry_by_identifier(fat_entry_identifier as u32) {
+            match fat_file_system.get_file_entry_by_identifier(fat_entry_identifier) {
                 Ok(file_entry) => file_entry,
                 Err(mut error) => {
                     keramics_core::error_trace_add_frame!(
-- 
2.43.0


From 402d8038ccf39c0943c3397ff42def4bfb81a628 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:06:48 +0000
Subject: [PATCH 098/148] fix: FAT file entries retrieved by identifier lack
 long names that span clusters

---
 .../src/fat/block_allocation_table.rs         |  15 ++
 keramics-formats/src/fat/file_system.rs       | 142 +++++++++++-------
 2 files changed, 102 insertions(+), 55 deletions(-)

diff --git a/keramics-formats/src/fat/block_allocation_table.rs b/keramics-formats/src/fat/block_allocation_table.rs
index fab93ab..993792d 100644
--- a/keramics-formats/src/fat/block_allocation_table.rs
+++ b/keramics-formats/src/fat/block_allocation_table.rs
@@ -76,6 +76,21 @@ impl FatBlockAllocationTable {
             + (((cluster_block_number - 2) as u64) * (self.cluster_block_size as u64)))
     }
 
+    /// Reads the number of the cluster block that is followed by a specific cluster block, where
+    /// None represents that there is no such cluster block.
+    pub fn read_previous_cluster_block_number(
+        &self,
+        data_stream: &DataStreamReference,
+        cluster_block_number: u32,
+    ) -> Result<Option<u32>, ErrorTrace> {
+        for entry_index in 2..self.number_of_entries {
+            if self.read_entry(data_stream, entry_index)? == cluster_block_number {
+                return Ok(Some(entry_index));
+            }
+        }
+        Ok(None)
+    }
+
     /// Reads the number of the cluster block that follows a specific cluster block, where None
     /// represents the end of the cluster block chain.
     pub fn read_next_cluster_block_number(
diff --git a/keramics-formats/src/fat/file_system.rs b/keramics-formats/src/fat/file_system.rs
index a9dc235..b65a745 100644
--- a/keramics-formats/src/fat/file_system.rs
+++ b/keramics-formats/src/fat/file_system.rs
@@ -238,6 +238,51 @@ impl FatFileSystem {
         Ok(())
     }
 
+    /// Retrieves the offset of the directory entry before the one at a specific offset.
+    fn get_previous_directory_entry_offset(
+        &self,
+        data_stream: &DataStreamReference,
+        directory_entry_offset: u64,
+    ) -> Result<Option<u64>, ErrorTrace> {
+        if directory_entry_offset < self.first_cluster_offset {
+            return if directory_entry_offset <= self.root_directory_offset {
+                Ok(None)
+            } else {
+                Ok(Some(directory_entry_offset - 32))
+            };
+        }
+        let cluster_relative_offset: u64 = directory_entry_offset - self.first_cluster_offset;
+
+        if cluster_relative_offset % (self.cluster_block_size as u64) != 0 {
+            return Ok(Some(directory_entry_offset - 32));
+        }
+        let block_allocation_table: &Arc<FatBlockAllocationTable> =
+            match self.block_allocation_table.as_ref() {
+                Some(block_allocation_table) => block_allocation_table,
+                None => {
+                    return Err(keramics_core::error_trace_new!(
+                        "Missing block allocation table"
+                    ));
+                }
+            };
+        let cluster_block_number: u64 =
+            2 + (cluster_relative_offset / (self.cluster_block_size as u64));
+
+        match block_allocation_table
+            .read_previous_cluster_block_number(data_stream, cluster_block_number as u32)?
+        {
+            Some(previous_cluster_block_number) => {
+                let previous_cluster_block_offset: u64 = block_allocation_table
+                    .get_cluster_block_offset(previous_cluster_block_number)?;
+
+                Ok(Some(
+                    previous_cluster_block_offset + (self.cluster_block_size as u64) - 32,
+                ))
+            }
+            None => Ok(None),
+        }
+    }
+
     /// Reads a directory entry for a specific identifier.
     fn read_directory_entry_by_identifier(
         &self,
@@ -262,27 +307,26 @@ impl FatFileSystem {
                 return Err(error);
             }
         }
-        let mut directory_entry_offset: u64 = file_entry_identifier - 32;
-
-        let cluster_block_number: u32 = if directory_entry_offset < self.first_cluster_offset {
-            0
-        } else {
-            (2 + (file_entry_identifier - self.first_cluster_offset)
-                / (self.cluster_block_size as u64)) as u32
-        };
-        let first_directory_entry_offset: u64 =
-            if directory_entry_offset < self.first_cluster_offset {
-                self.root_directory_offset
-            } else {
-                self.first_cluster_offset
-                    + (((cluster_block_number - 2) as u64) * (self.cluster_block_size as u64))
-            };
+        let mut directory_entry_offset: u64 = file_entry_identifier;
         let mut last_vfat_sequence_number: u8 = 0;
         let mut long_name_entries: Vec<FatLongNameDirectoryEntry> = Vec::new();
-        let mut last_entry: bool = false;
+        let mut is_complete: bool = false;
         let mut data: [u8; 32] = [0; 32];
 
-        while directory_entry_offset >= first_directory_entry_offset {
+        while !is_complete {
+            directory_entry_offset = match self
+                .get_previous_directory_entry_offset(data_stream, directory_entry_offset)
+            {
+                Ok(Some(offset)) => offset,
+                Ok(None) => break,
+                Err(mut error) => {
+                    keramics_core::error_trace_add_frame!(
+                        error,
+                        "Unable to determine offset of previous directory entry"
+                    );
+                    return Err(error);
+                }
+            };
             keramics_core::data_stream_read_exact_at_position!(
                 data_stream,
                 &mut data,
@@ -296,53 +340,41 @@ impl FatFileSystem {
                 self.mediator.debug_print_data(&data, true);
             }
             match FatDirectoryEntryType::read_data(&data) {
-                FatDirectoryEntryType::LongName => {
-                    let mut long_name_entry: FatLongNameDirectoryEntry =
-                        FatLongNameDirectoryEntry::new();
-
-                    match long_name_entry.read_data(&data) {
-                        Ok(_) => {}
-                        Err(mut error) => {
-                            keramics_core::error_trace_add_frame!(
-                                error,
-                                format!(
-                                    "Unable to read long name directory entry at offset: {} (0x{:08x})",
-                                    file_entry_identifier, file_entry_identifier
-                                )
-                            );
-                            return Err(error);
-                        }
-                    }
-                    let vfat_sequence_number: u8 = long_name_entry.sequence_number & 0x1f;
-
-                    if long_name_entry.sequence_number & 0x40 != 0 {
-                        last_entry = true;
-                    } else if last_vfat_sequence_number != 0
-                        && last_vfat_sequence_number + 1 != vfat_sequence_number
-                    {
-                        return Err(keramics_core::error_trace_new!(format!(
-                            "VFAT long name sequence number mismatch at offset: {} (0x{:08x})",
-                            directory_entry_offset, directory_entry_offset
-                        )));
-                    }
-                    long_name_entries.push(long_name_entry);
+                FatDirectoryEntryType::LongName => {}
+                _ => break,
+            }
+            let mut long_name_entry: FatLongNameDirectoryEntry = FatLongNameDirectoryEntry::new();
 
-                    last_vfat_sequence_number = vfat_sequence_number;
+            match long_name_entry.read_data(&data) {
+                Ok(_) => {}
+                Err(mut error) => {
+                    keramics_core::error_trace_add_frame!(
+                        error,
+                        format!(
+                            "Unable to read long name directory entry at offset: {} (0x{:08x})",
+                            directory_entry_offset, directory_entry_offset
+                        )
+                    );
+                    return Err(error);
                 }
-                _ => last_entry = true,
             }
-            if last_entry {
+            let vfat_sequence_number: u8 = long_name_entry.sequence_number & 0x1f;
+
+            // Long name entries that are not part of a complete sequence are ignored.
+            if vfat_sequence_number != last_vfat_sequence_number + 1
+                || long_name_entry.name_checksum != short_name_entry.name_checksum
+            {
                 break;
             }
-            directory_entry_offset -= 32;
-        }
-        if !last_entry {
-            // TODO: determine previous cluster block.
+            is_complete = long_name_entry.sequence_number & 0x40 != 0;
+            last_vfat_sequence_number = vfat_sequence_number;
+
+            long_name_entries.push(long_name_entry);
         }
         let mut directory_entry: FatDirectoryEntry =
             FatDirectoryEntry::new(file_entry_identifier, short_name_entry);
 
-        if last_vfat_sequence_number & 0x40 == 0 {
+        if is_complete {
             long_name_entries.reverse();
 
             directory_entry.set_long_name(&mut long_name_entries);
-- 
2.43.0


From ac4d11802b1cd88a298ae4cecc624b7280a0d2ea Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:48:43 +0000
Subject: [PATCH 099/148] fix: formats are detected at the wrong place in data
 smaller than the footer range

---
 keramics-formats/src/scanner.rs | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/keramics-formats/src/scanner.rs b/keramics-formats/src/scanner.rs
index 561d40f..2ee3910 100644
--- a/keramics-formats/src/scanner.rs
+++ b/keramics-formats/src/scanner.rs
@@ -11,6 +11,7 @@
  * under the License.
  */
 
+use std::cmp::min;
 use std::collections::HashSet;
 use std::io::SeekFrom;
 
@@ -256,28 +257,22 @@ impl FormatScanner {
         let mut scan_context: ScanContext = ScanContext::new(&self.signature_scanner, data_size);
 
         // The size of the header range can be larger than the size of the data stream.
-        let mut data: Vec<u8> = vec![0; scan_context.header_range_size as usize];
+        let header_size: u64 = min(scan_context.header_range_size, data_size);
+        let mut data: Vec<u8> = vec![0; header_size as usize];
 
         keramics_core::data_stream_read_at_position!(data_stream, &mut data, SeekFrom::Start(0));
         scan_context.data_offset = 0;
         scan_context.scan_buffer(&data);
 
         // The size of the footer range can be larger than the size of the data stream.
-        let mut data: Vec<u8> = vec![0; scan_context.footer_range_size as usize];
+        let footer_size: u64 = min(scan_context.footer_range_size, data_size);
+        let mut data: Vec<u8> = vec![0; footer_size as usize];
+
+        let data_stream_offset: u64 = data_size - footer_size;
 
-        let data_offset: usize = if scan_context.footer_range_size < data_size {
-            0
-        } else {
-            (scan_context.footer_range_size - data_size) as usize
-        };
-        let data_stream_offset: u64 = if scan_context.footer_range_size < data_size {
-            data_size - scan_context.footer_range_size
-        } else {
-            0
-        };
         keramics_core::data_stream_read_at_position!(
             data_stream,
-            &mut data[data_offset..],
+            &mut data,
             SeekFrom::Start(data_stream_offset)
         );
         scan_context.data_offset = data_stream_offset;
-- 
2.43.0


From 134c0eb163521cc6cc641bbc0761cae16cf1ae5c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:01:57 +0000
Subject: [PATCH 100/148] fix: the stored metadata checksum seed of ext volumes
 is not used for their inodes

---
 keramics-formats/src/ext/features.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/keramics-formats/src/ext/features.rs b/keramics-formats/src/ext/features.rs
index af97388..b0c5c67 100644
--- a/keramics-formats/src/ext/features.rs
+++ b/keramics-formats/src/ext/features.rs
@@ -52,10 +52,16 @@ impl ExtFeatures {
             & EXT_READ_ONLY_COMPATIBLE_FEATURE_FLAG_METADATA_CHECKSUM
             != 0
         {
-            let mut crc32_context: ReversedCrc32Context = ReversedCrc32Context::new(0x82f63b78, 0);
-            crc32_context.update(&superblock.file_system_identifier);
-            let checksum: u32 = crc32_context.finalize();
-
+            let checksum: u32 = match superblock.metadata_checksum_seed {
+                Some(metadata_checksum_seed) => metadata_checksum_seed,
+                None => {
+                    let mut crc32_context: ReversedCrc32Context =
+                        ReversedCrc32Context::new(0x82f63b78, 0);
+                    crc32_context.update(&superblock.file_system_identifier);
+
+                    crc32_context.finalize()
+                }
+            };
             self.metadata_checksum_seed = Some(checksum);
         }
     }
-- 
2.43.0


From b2fe71e418830776a506d35e7c38617625af48bd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:02:21 +0000
Subject: [PATCH 101/148] fix: ext volumes with 1 KiB blocks can be read as
 having a block group too many

---
 keramics-formats/src/ext/superblock.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/keramics-formats/src/ext/superblock.rs b/keramics-formats/src/ext/superblock.rs
index 9ed7ebe..daed660 100644
--- a/keramics-formats/src/ext/superblock.rs
+++ b/keramics-formats/src/ext/superblock.rs
@@ -143,6 +143,8 @@ pub struct ExtSuperblock {
 
     /// Number of blocks.
     pub number_of_blocks: u64,
+    /// First data block number.
+    pub first_data_block_number: u32,
 
     /// Block size.
     pub block_size: u32,
@@ -202,6 +204,7 @@ impl ExtSuperblock {
         Self {
             number_of_inodes: 0,
             number_of_blocks: 0,
+            first_data_block_number: 0,
             block_size: 0,
             number_of_blocks_per_block_group: 0,
             number_of_inodes_per_block_group: 0,
@@ -257,6 +260,13 @@ impl ExtSuperblock {
                 self.number_of_blocks
             )));
         }
+        self.first_data_block_number = bytes_to_u32_le!(data, 20);
+        if self.first_data_block_number as u64 >= self.number_of_blocks {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid first data block number: {} value out of bounds",
+                self.first_data_block_number
+            )));
+        }
         self.block_size = bytes_to_u32_le!(data, 24);
 
         if self.block_size > 32 - 10 {
@@ -347,7 +357,7 @@ impl ExtSuperblock {
 
     /// Retrieves the number of block groups.
     pub fn get_number_of_block_groups(&self) -> u64 {
-        self.number_of_blocks
+        (self.number_of_blocks - (self.first_data_block_number as u64))
             .div_ceil(self.number_of_blocks_per_block_group as u64)
     }
 }
-- 
2.43.0


From df7eec94846fcd2b56d75b34aaf0dfe52729a938 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:02:44 +0000
Subject: [PATCH 102/148] fix: ext volumes of format revision 0 cannot be read

---
 keramics-formats/src/ext/superblock.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/keramics-formats/src/ext/superblock.rs b/keramics-formats/src/ext/superblock.rs
index daed660..6e47b11 100644
--- a/keramics-formats/src/ext/superblock.rs
+++ b/keramics-formats/src/ext/superblock.rs
@@ -297,7 +297,12 @@ impl ExtSuperblock {
         }
         self.last_mount_time = PosixTime32::from_le_bytes(&data[44..48]);
         self.last_written_time = PosixTime32::from_le_bytes(&data[48..52]);
-        self.inode_size = bytes_to_u16_le!(data, 88);
+        // Format revision 0 has inodes of a fixed size.
+        self.inode_size = if self.format_revision == 0 {
+            128
+        } else {
+            bytes_to_u16_le!(data, 88)
+        };
         self.group_descriptor_size = bytes_to_u16_le!(data, 254);
         self.first_meta_block_group = bytes_to_u32_le!(data, 260);
         self.file_system_identifier.copy_from_slice(&data[104..120]);
-- 
2.43.0


From 80d0bae33b40f7b2427d158c9973568f04f0edff Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:02:44 +0000
Subject: [PATCH 103/148] fix: ext volumes with flex groups of 65536 or more
 block groups are refused

---
 keramics-formats/src/ext/superblock.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keramics-formats/src/ext/superblock.rs b/keramics-formats/src/ext/superblock.rs
index 6e47b11..1c5a792 100644
--- a/keramics-formats/src/ext/superblock.rs
+++ b/keramics-formats/src/ext/superblock.rs
@@ -310,7 +310,7 @@ impl ExtSuperblock {
         self.last_mount_path = ByteString::from(&data[136..200]);
 
         let number_of_block_groups_per_flex_group: u8 = data[372];
-        if number_of_block_groups_per_flex_group >= 16 {
+        if number_of_block_groups_per_flex_group >= 32 {
             return Err(keramics_core::error_trace_new!(format!(
                 "Invalid number of blocks per flex group: {} value out of bounds",
                 number_of_block_groups_per_flex_group,
-- 
2.43.0


From eda39fd2303f1f513e6df77848d27860b04f1484 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:02:44 +0000
Subject: [PATCH 104/148] fix: regular files of 4 GiB or more on ext2 and ext3
 volumes are truncated

---
 keramics-formats/src/ext/inode_ext2.rs | 4 ++++
 keramics-formats/src/ext/inode_ext3.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/keramics-formats/src/ext/inode_ext2.rs b/keramics-formats/src/ext/inode_ext2.rs
index 78a1eb4..31be4f4 100644
--- a/keramics-formats/src/ext/inode_ext2.rs
+++ b/keramics-formats/src/ext/inode_ext2.rs
@@ -16,6 +16,7 @@ use keramics_datetime::{DateTime, PosixTime32};
 use keramics_layout_map::LayoutMap;
 use keramics_types::{bytes_to_i32_le, bytes_to_u16_le, bytes_to_u32_le};
 
+use crate::ext::constants::*;
 use crate::ext::inode::ExtInode;
 
 #[derive(LayoutMap)]
@@ -70,6 +71,9 @@ impl Ext2Inode {
         inode.group_identifier = ((upper_16bit as u32) << 16) | (lower_16bit as u32);
 
         inode.data_size = bytes_to_u32_le!(data, 4) as u64;
+        if inode.file_mode & 0xf000 == EXT_FILE_MODE_TYPE_REGULAR_FILE {
+            inode.data_size |= (bytes_to_u32_le!(data, 108) as u64) << 32;
+        }
 
         inode.access_timestamp = bytes_to_i32_le!(data, 8);
         if inode.access_timestamp > 0 {
diff --git a/keramics-formats/src/ext/inode_ext3.rs b/keramics-formats/src/ext/inode_ext3.rs
index 1a34cab..b39925a 100644
--- a/keramics-formats/src/ext/inode_ext3.rs
+++ b/keramics-formats/src/ext/inode_ext3.rs
@@ -16,6 +16,7 @@ use keramics_datetime::{DateTime, PosixTime32};
 use keramics_layout_map::LayoutMap;
 use keramics_types::{bytes_to_i32_le, bytes_to_u16_le, bytes_to_u32_le};
 
+use crate::ext::constants::*;
 use crate::ext::inode::ExtInode;
 
 #[derive(LayoutMap)]
@@ -70,6 +71,9 @@ impl Ext3Inode {
         inode.group_identifier = ((upper_16bit as u32) << 16) | (lower_16bit as u32);
 
         inode.data_size = bytes_to_u32_le!(data, 4) as u64;
+        if inode.file_mode & 0xf000 == EXT_FILE_MODE_TYPE_REGULAR_FILE {
+            inode.data_size |= (bytes_to_u32_le!(data, 108) as u64) << 32;
+        }
 
         inode.access_timestamp = bytes_to_i32_le!(data, 8);
         if inode.access_timestamp > 0 {
-- 
2.43.0


From 2c2d64bb26a88aa73bd6562d7fec14dd3a0ab386 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:02:44 +0000
Subject: [PATCH 105/148] fix: timestamps before 1970 and creation times after
 2038 of ext file entries are not set

---
 keramics-formats/src/ext/inode_ext2.rs           | 8 ++++----
 keramics-formats/src/ext/inode_ext3.rs           | 8 ++++----
 keramics-formats/src/ext/inode_ext4.rs           | 8 ++++----
 keramics-formats/src/ext/inode_extension_ext4.rs | 8 ++++----
 4 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/keramics-formats/src/ext/inode_ext2.rs b/keramics-formats/src/ext/inode_ext2.rs
index 31be4f4..26afd55 100644
--- a/keramics-formats/src/ext/inode_ext2.rs
+++ b/keramics-formats/src/ext/inode_ext2.rs
@@ -76,20 +76,20 @@ impl Ext2Inode {
         }
 
         inode.access_timestamp = bytes_to_i32_le!(data, 8);
-        if inode.access_timestamp > 0 {
+        if inode.access_timestamp != 0 {
             inode.access_time = DateTime::PosixTime32(PosixTime32::new(inode.access_timestamp));
         }
         inode.change_timestamp = bytes_to_i32_le!(data, 12);
-        if inode.change_timestamp > 0 {
+        if inode.change_timestamp != 0 {
             inode.change_time = DateTime::PosixTime32(PosixTime32::new(inode.change_timestamp));
         }
         inode.modification_timestamp = bytes_to_i32_le!(data, 16);
-        if inode.modification_timestamp > 0 {
+        if inode.modification_timestamp != 0 {
             inode.modification_time =
                 DateTime::PosixTime32(PosixTime32::new(inode.modification_timestamp));
         }
         let timestamp: i32 = bytes_to_i32_le!(data, 20);
-        if timestamp > 0 {
+        if timestamp != 0 {
             inode.deletion_time = DateTime::PosixTime32(PosixTime32::new(timestamp));
         }
         inode.number_of_links = bytes_to_u16_le!(data, 26);
diff --git a/keramics-formats/src/ext/inode_ext3.rs b/keramics-formats/src/ext/inode_ext3.rs
index b39925a..6c5fe7d 100644
--- a/keramics-formats/src/ext/inode_ext3.rs
+++ b/keramics-formats/src/ext/inode_ext3.rs
@@ -76,20 +76,20 @@ impl Ext3Inode {
         }
 
         inode.access_timestamp = bytes_to_i32_le!(data, 8);
-        if inode.access_timestamp > 0 {
+        if inode.access_timestamp != 0 {
             inode.access_time = DateTime::PosixTime32(PosixTime32::new(inode.access_timestamp));
         }
         inode.change_timestamp = bytes_to_i32_le!(data, 12);
-        if inode.change_timestamp > 0 {
+        if inode.change_timestamp != 0 {
             inode.change_time = DateTime::PosixTime32(PosixTime32::new(inode.change_timestamp));
         }
         inode.modification_timestamp = bytes_to_i32_le!(data, 16);
-        if inode.modification_timestamp > 0 {
+        if inode.modification_timestamp != 0 {
             inode.modification_time =
                 DateTime::PosixTime32(PosixTime32::new(inode.modification_timestamp));
         }
         let timestamp: i32 = bytes_to_i32_le!(data, 20);
-        if timestamp > 0 {
+        if timestamp != 0 {
             inode.deletion_time = DateTime::PosixTime32(PosixTime32::new(timestamp));
         }
         inode.number_of_links = bytes_to_u16_le!(data, 26);
diff --git a/keramics-formats/src/ext/inode_ext4.rs b/keramics-formats/src/ext/inode_ext4.rs
index 1ab6468..0b4d6c5 100644
--- a/keramics-formats/src/ext/inode_ext4.rs
+++ b/keramics-formats/src/ext/inode_ext4.rs
@@ -77,20 +77,20 @@ impl Ext4Inode {
 
         if inode.flags & 0x00200000 == 0 {
             inode.access_timestamp = bytes_to_i32_le!(data, 8);
-            if inode.access_timestamp > 0 {
+            if inode.access_timestamp != 0 {
                 inode.access_time = DateTime::PosixTime32(PosixTime32::new(inode.access_timestamp));
             }
             inode.change_timestamp = bytes_to_i32_le!(data, 12);
-            if inode.change_timestamp > 0 {
+            if inode.change_timestamp != 0 {
                 inode.change_time = DateTime::PosixTime32(PosixTime32::new(inode.change_timestamp));
             }
             inode.modification_timestamp = bytes_to_i32_le!(data, 16);
-            if inode.modification_timestamp > 0 {
+            if inode.modification_timestamp != 0 {
                 inode.modification_time =
                     DateTime::PosixTime32(PosixTime32::new(inode.modification_timestamp));
             }
             let timestamp: i32 = bytes_to_i32_le!(data, 20);
-            if timestamp > 0 {
+            if timestamp != 0 {
                 inode.deletion_time = DateTime::PosixTime32(PosixTime32::new(timestamp));
             }
         }
diff --git a/keramics-formats/src/ext/inode_extension_ext4.rs b/keramics-formats/src/ext/inode_extension_ext4.rs
index 1f8e848..353356b 100644
--- a/keramics-formats/src/ext/inode_extension_ext4.rs
+++ b/keramics-formats/src/ext/inode_extension_ext4.rs
@@ -68,7 +68,7 @@ impl Ext4InodeExtension {
                 let (timestamp, fraction): (i64, u32) =
                     Self::get_extra_precision_timestamp(inode.change_timestamp, extra_precision);
 
-                if timestamp > 0 {
+                if timestamp != 0 {
                     inode.change_time =
                         DateTime::PosixTime64Ns(PosixTime64Ns::new(timestamp, fraction));
                 }
@@ -80,7 +80,7 @@ impl Ext4InodeExtension {
                     extra_precision,
                 );
 
-                if timestamp > 0 {
+                if timestamp != 0 {
                     inode.modification_time =
                         DateTime::PosixTime64Ns(PosixTime64Ns::new(timestamp, fraction));
                 }
@@ -90,7 +90,7 @@ impl Ext4InodeExtension {
                 let (timestamp, fraction): (i64, u32) =
                     Self::get_extra_precision_timestamp(inode.access_timestamp, extra_precision);
 
-                if timestamp > 0 {
+                if timestamp != 0 {
                     inode.access_time =
                         DateTime::PosixTime64Ns(PosixTime64Ns::new(timestamp, fraction));
                 }
@@ -102,7 +102,7 @@ impl Ext4InodeExtension {
             let (extra_precision_timestamp, fraction): (i64, u32) =
                 Self::get_extra_precision_timestamp(timestamp, extra_precision);
 
-            if timestamp > 0 {
+            if extra_precision_timestamp != 0 {
                 inode.creation_time = Some(DateTime::PosixTime64Ns(PosixTime64Ns::new(
                     extra_precision_timestamp,
                     fraction,
-- 
2.43.0


From 1550131589245c66e15b8a2ac72057bae45a4532 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:03:32 +0000
Subject: [PATCH 106/148] fix: files on ext volumes with blocks allocated
 beyond their end cannot be opened

---
 keramics-formats/src/ext/block_stream.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/keramics-formats/src/ext/block_stream.rs b/keramics-formats/src/ext/block_stream.rs
index b4b6409..db23e48 100644
--- a/keramics-formats/src/ext/block_stream.rs
+++ b/keramics-formats/src/ext/block_stream.rs
@@ -61,7 +61,15 @@ impl ExtBlockStream {
             BlockTree::<ExtBlockRange>::new(block_tree_data_size, 0, self.block_size as u64);
         for block_range in block_ranges.iter() {
             let logical_offset: u64 = block_range.logical_block_number * (self.block_size as u64);
-            let range_size: u64 = block_range.number_of_blocks * (self.block_size as u64);
+            let mut range_size: u64 = block_range.number_of_blocks * (self.block_size as u64);
+
+            // Note that blocks can be allocated beyond the end of the file.
+            if logical_offset >= block_tree_data_size {
+                continue;
+            }
+            if range_size > block_tree_data_size - logical_offset {
+                range_size = block_tree_data_size - logical_offset;
+            }
             match self
                 .block_tree
                 .insert_value(logical_offset, range_size, block_range.clone())
-- 
2.43.0


From 0ebea86830c552688c9bee19b0d6c8821ba80b58 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:03:32 +0000
Subject: [PATCH 107/148] fix: data stored in ext inodes is read as block
 numbers

---
 keramics-formats/src/ext/inode.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/keramics-formats/src/ext/inode.rs b/keramics-formats/src/ext/inode.rs
index 720728d..263782e 100644
--- a/keramics-formats/src/ext/inode.rs
+++ b/keramics-formats/src/ext/inode.rs
@@ -161,8 +161,10 @@ impl ExtInode {
         if format_version == 4 && self.flags & EXT_INODE_FLAG_INLINE_DATA != 0 {
             // The data is stored inline in self.data_reference
             // Note that self.data_size can be larger than 60
+            return Ok(());
         } else if file_mode_type == EXT_FILE_MODE_TYPE_SYMBOLIC_LINK && self.data_size < 60 {
             // The symbolic link target path is stored in self.data_reference
+            return Ok(());
         }
         match file_mode_type {
             EXT_FILE_MODE_TYPE_CHARACTER_DEVICE | EXT_FILE_MODE_TYPE_BLOCK_DEVICE => {
-- 
2.43.0


From 24bfe2e96854dd43b26d01f8aa538e703f14af38 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:03:32 +0000
Subject: [PATCH 108/148] fix: ext directories are read up to their first
 sparse block only

---
 keramics-formats/src/ext/directory_tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keramics-formats/src/ext/directory_tree.rs b/keramics-formats/src/ext/directory_tree.rs
index 0b180f4..67570b6 100644
--- a/keramics-formats/src/ext/directory_tree.rs
+++ b/keramics-formats/src/ext/directory_tree.rs
@@ -53,7 +53,7 @@ impl ExtDirectoryTree {
     ) -> Result<(), ErrorTrace> {
         for block_range in block_ranges.iter() {
             if block_range.range_type != ExtBlockRangeType::InFile {
-                break;
+                continue;
             }
             let mut block_offset: u64 =
                 block_range.physical_block_number * (self.block_size as u64);
-- 
2.43.0


From 03dfcb62f0941dbc46ab86deb508934cc39b1f57 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:03:32 +0000
Subject: [PATCH 109/148] fix: ext directory entries of 64 KiB cannot be read

---
 keramics-formats/src/ext/directory_tree.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/keramics-formats/src/ext/directory_tree.rs b/keramics-formats/src/ext/directory_tree.rs
index 67570b6..1953c92 100644
--- a/keramics-formats/src/ext/directory_tree.rs
+++ b/keramics-formats/src/ext/directory_tree.rs
@@ -132,10 +132,15 @@ impl ExtDirectoryTree {
                     return Err(error);
                 }
             }
-            if entry.size == 0 {
+            // Note that 64 KiB does not fit in the entry size and is stored as 0 or 65535.
+            let entry_size: usize = match entry.size {
+                0 | 65535 if data_size - data_offset == 65536 => 65536,
+                _ => entry.size as usize,
+            };
+            if entry_size == 0 {
                 break;
             }
-            if entry.size < 8 || (entry.size as usize) > data_size - data_offset {
+            if entry_size < 8 || entry_size > data_size - data_offset {
                 return Err(keramics_core::error_trace_new!(format!(
                     "Invalid directory entry size: {} value out of bounds",
                     entry.size
@@ -153,7 +158,7 @@ impl ExtDirectoryTree {
                     return Err(error);
                 }
             };
-            data_offset += (entry.size as usize) - 8;
+            data_offset += entry_size - 8;
 
             // TODO: print trailing data
 
-- 
2.43.0


From cc4dddf1f397b91e9c372ee639574898e9fe6a1c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:03:32 +0000
Subject: [PATCH 110/148] fix: ext inodes with encryption, Lustre or Hurd
 attributes cannot be read

---
 keramics-formats/src/ext/attributes_entry.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/keramics-formats/src/ext/attributes_entry.rs b/keramics-formats/src/ext/attributes_entry.rs
index 250dd7c..feb1f3e 100644
--- a/keramics-formats/src/ext/attributes_entry.rs
+++ b/keramics-formats/src/ext/attributes_entry.rs
@@ -89,9 +89,12 @@ impl ExtAttributesEntry {
             2 => "system.posix_acl_access",
             3 => "system.posix_acl_default",
             4 => "trusted.",
+            5 => "lustre.",
             6 => "security.",
             7 => "system.",
             8 => "system.richacl",
+            9 => "encryption.",
+            10 => "hurd.",
             _ => {
                 return Err(keramics_core::error_trace_new!(format!(
                     "Unsupported attribute name index: {}",
-- 
2.43.0


From c7241b309fd3c32d1f2de0ddc59998d60da0b29c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:04:28 +0000
Subject: [PATCH 111/148] fix: inline data of more than 60 bytes on ext volumes
 is not read

---
 keramics-formats/src/ext/attribute.rs         | 30 +++++++++++++++++--
 keramics-formats/src/ext/attributes_block.rs  | 10 ++++---
 keramics-formats/src/ext/file_entry.rs        | 11 +++++--
 keramics-formats/src/ext/inode.rs             |  9 ++++++
 .../src/ext/inode_extension_ext4.rs           | 21 +++++++++++++
 5 files changed, 71 insertions(+), 10 deletions(-)

diff --git a/keramics-formats/src/ext/attribute.rs b/keramics-formats/src/ext/attribute.rs
index 4391a60..4d9ee17 100644
--- a/keramics-formats/src/ext/attribute.rs
+++ b/keramics-formats/src/ext/attribute.rs
@@ -11,13 +11,37 @@
  * under the License.
  */
 
+use keramics_types::ByteString;
+
 /// Extended File System (ext) attribute.
-pub struct ExtAttribute {}
+pub struct ExtAttribute {
+    /// Name.
+    pub(super) name: ByteString,
+
+    /// Value data offset, relative to the first attributes entry or the start of the block.
+    pub(super) value_data_offset: u16,
+
+    /// Value data inode number.
+    pub(super) value_data_inode_number: u32,
+
+    /// Value data size.
+    pub(super) value_data_size: u32,
+}
 
 impl ExtAttribute {
     /// Creates a new attribute.
-    pub(super) fn new() -> Self {
-        Self {}
+    pub(super) fn new(
+        name: ByteString,
+        value_data_offset: u16,
+        value_data_inode_number: u32,
+        value_data_size: u32,
+    ) -> Self {
+        Self {
+            name: name,
+            value_data_offset: value_data_offset,
+            value_data_inode_number: value_data_inode_number,
+            value_data_size: value_data_size,
+        }
     }
 
     // TODO: add method to retrieve name
diff --git a/keramics-formats/src/ext/attributes_block.rs b/keramics-formats/src/ext/attributes_block.rs
index a13236a..2c7b37a 100644
--- a/keramics-formats/src/ext/attributes_block.rs
+++ b/keramics-formats/src/ext/attributes_block.rs
@@ -76,9 +76,6 @@ impl ExtAttributesBlock {
             }
             entry_data_offset = data_end_offset;
 
-            let attribute: ExtAttribute = ExtAttribute::new();
-            // TODO: fill attribute
-
             let name: ByteString = match entry.read_name(&data[entry_data_offset..]) {
                 Ok(name) => name,
                 Err(mut error) => {
@@ -112,7 +109,12 @@ impl ExtAttributesBlock {
 
             // TODO: read inline value data.
 
-            entries.push(attribute);
+            entries.push(ExtAttribute::new(
+                name,
+                entry.value_data_offset,
+                entry.value_data_inode_number,
+                entry.value_data_size,
+            ));
 
             entry_data_offset += alignment_padding_size;
         }
diff --git a/keramics-formats/src/ext/file_entry.rs b/keramics-formats/src/ext/file_entry.rs
index 0f81159..87bcb0d 100644
--- a/keramics-formats/src/ext/file_entry.rs
+++ b/keramics-formats/src/ext/file_entry.rs
@@ -157,7 +157,12 @@ impl ExtFileEntry {
                     self.inode.data_size,
                 )));
             }
-            let byte_string: ByteString = if self.inode.data_size < 60 {
+            let byte_string: ByteString = if self.inode.flags & EXT_INODE_FLAG_INLINE_DATA != 0 {
+                let mut data: Vec<u8> = self.inode.get_inline_data();
+                data.truncate(self.inode.data_size as usize);
+
+                ByteString::from(&data)
+            } else if self.inode.data_size < 60 {
                 ByteString::from(self.inode.data_reference.as_slice())
             } else {
                 let number_of_blocks: u64 = max(
@@ -213,7 +218,7 @@ impl ExtFileEntry {
         }
         if self.inode.flags & EXT_INODE_FLAG_INLINE_DATA != 0 {
             let data_stream: FakeDataStream =
-                FakeDataStream::new(&self.inode.data_reference, self.inode.data_size);
+                FakeDataStream::new(&self.inode.get_inline_data(), self.inode.data_size);
             Ok(Some(Arc::new(RwLock::new(data_stream))))
         } else {
             let number_of_blocks: u64 = max(
@@ -386,7 +391,7 @@ impl ExtFileEntry {
         if self.inode.flags & EXT_INODE_FLAG_INLINE_DATA != 0 {
             match self
                 .sub_directory_entries
-                .read_inline_data(&self.inode.data_reference, self.inode_table.block_size)
+                .read_inline_data(&self.inode.get_inline_data(), self.inode_table.block_size)
             {
                 Ok(_) => {}
                 Err(mut error) => {
diff --git a/keramics-formats/src/ext/inode.rs b/keramics-formats/src/ext/inode.rs
index 263782e..97d39f8 100644
--- a/keramics-formats/src/ext/inode.rs
+++ b/keramics-formats/src/ext/inode.rs
@@ -73,6 +73,9 @@ pub struct ExtInode {
     /// Data reference.
     pub data_reference: [u8; 60],
 
+    /// Inline data that is not in the data reference.
+    pub(super) inline_data: Vec<u8>,
+
     /// Checksum.
     pub checksum: u32,
 
@@ -105,6 +108,7 @@ impl ExtInode {
             number_of_blocks: 0,
             flags: 0,
             data_reference: [0; 60],
+            inline_data: Vec::new(),
             checksum: 0,
             creation_time: None,
             block_ranges: Vec::new(),
@@ -149,6 +153,11 @@ impl ExtInode {
         Ok(())
     }
 
+    /// Retrieves the inline data.
+    pub(super) fn get_inline_data(&self) -> Vec<u8> {
+        [self.data_reference.as_slice(), self.inline_data.as_slice()].concat()
+    }
+
     /// Reads the data reference.
     pub fn read_data_reference(
         &mut self,
diff --git a/keramics-formats/src/ext/inode_extension_ext4.rs b/keramics-formats/src/ext/inode_extension_ext4.rs
index 353356b..3db248e 100644
--- a/keramics-formats/src/ext/inode_extension_ext4.rs
+++ b/keramics-formats/src/ext/inode_extension_ext4.rs
@@ -134,6 +134,27 @@ impl Ext4InodeExtension {
                         return Err(error);
                     }
                 }
+                // The inline data that does not fit in the data reference is stored as the value
+                // of an extended attribute.
+                if inode.flags & EXT_INODE_FLAG_INLINE_DATA != 0 {
+                    for attribute in inode.attributes.iter() {
+                        if attribute.value_data_inode_number != 0 || attribute.name != "system.data"
+                        {
+                            continue;
+                        }
+                        let value_offset: usize =
+                            data_offset + (attribute.value_data_offset as usize);
+                        let value_end_offset: usize =
+                            value_offset + (attribute.value_data_size as usize);
+
+                        if value_end_offset > data_size {
+                            return Err(keramics_core::error_trace_new!(
+                                "Invalid inline data value out of bounds"
+                            ));
+                        }
+                        inode.inline_data = data[value_offset..value_end_offset].to_vec();
+                    }
+                }
             }
         }
         Ok(())
-- 
2.43.0


From 631505bcbce5f42cbff957c6ebccd585ac8dfcc6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:27:02 +0000
Subject: [PATCH 112/148] fix: reads across NTFS compression units fail

---
 keramics-formats/src/ntfs/compressed_stream.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/keramics-formats/src/ntfs/compressed_stream.rs b/keramics-formats/src/ntfs/compressed_stream.rs
index 11d04cf..d1adde8 100644
--- a/keramics-formats/src/ntfs/compressed_stream.rs
+++ b/keramics-formats/src/ntfs/compressed_stream.rs
@@ -247,10 +247,6 @@ impl NtfsCompressedStream {
             let data_end_offset: usize = data_offset + range_read_size;
             let read_count: usize = match compression_unit.range_type {
                 NtfsCompressionRangeType::Compressed => {
-                    let range_read_size: usize =
-                        min(read_remainder_size, self.compression_unit_size);
-                    let data_end_offset: usize = data_offset + range_read_size;
-
                     if !self.block_cache.contains(&range_offset) {
                         let data_stream: &DataStreamReference = match self.data_stream.as_ref() {
                             Some(data_stream) => data_stream,
-- 
2.43.0


From b4f024a900f7c842f3129002a3231d8732b07d25 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:27:02 +0000
Subject: [PATCH 113/148] fix: the part of a compressed NTFS stream beyond its
 valid size is missing

---
 keramics-formats/src/ntfs/compressed_stream.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/keramics-formats/src/ntfs/compressed_stream.rs b/keramics-formats/src/ntfs/compressed_stream.rs
index d1adde8..be0c2ae 100644
--- a/keramics-formats/src/ntfs/compressed_stream.rs
+++ b/keramics-formats/src/ntfs/compressed_stream.rs
@@ -52,6 +52,9 @@ pub struct NtfsCompressedStream {
 
     /// The size.
     size: u64,
+
+    /// The valid data size.
+    valid_data_size: u64,
 }
 
 impl NtfsCompressedStream {
@@ -66,6 +69,7 @@ impl NtfsCompressedStream {
             block_cache: LruCache::new(8),
             current_offset: 0,
             size: 0,
+            valid_data_size: 0,
         }
     }
 
@@ -207,7 +211,8 @@ impl NtfsCompressedStream {
                 };
             }
         }
-        self.size = data_attribute.valid_data_size;
+        self.size = data_attribute.data_size;
+        self.valid_data_size = data_attribute.valid_data_size;
 
         Ok(())
     }
@@ -236,7 +241,10 @@ impl NtfsCompressedStream {
             let range_size: u64 = compression_unit.size;
 
             let range_relative_offset: u64 = current_offset - range_offset;
-            let range_end_offset: u64 = min(range_offset + range_size, self.size);
+            let mut range_end_offset: u64 = min(range_offset + range_size, self.size);
+            if current_offset < self.valid_data_size {
+                range_end_offset = min(range_end_offset, self.valid_data_size);
+            }
 
             let range_remainder_size: u64 =
                 (range_end_offset - range_offset) - range_relative_offset;
@@ -246,6 +254,11 @@ impl NtfsCompressedStream {
 
             let data_end_offset: usize = data_offset + range_read_size;
             let read_count: usize = match compression_unit.range_type {
+                _ if current_offset >= self.valid_data_size => {
+                    data[data_offset..data_end_offset].fill(0);
+
+                    range_read_size
+                }
                 NtfsCompressionRangeType::Compressed => {
                     if !self.block_cache.contains(&range_offset) {
                         let data_stream: &DataStreamReference = match self.data_stream.as_ref() {
-- 
2.43.0


From e2ab175569b31b7aacced3bd5a89a203e1ee3a86 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:27:02 +0000
Subject: [PATCH 114/148] fix: size of NTFS streams compressed by the Windows
 Overlay Filter

---
 keramics-formats/src/ntfs/mft_attributes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keramics-formats/src/ntfs/mft_attributes.rs b/keramics-formats/src/ntfs/mft_attributes.rs
index 4916a96..6a4a4d5 100644
--- a/keramics-formats/src/ntfs/mft_attributes.rs
+++ b/keramics-formats/src/ntfs/mft_attributes.rs
@@ -273,7 +273,7 @@ impl NtfsMftAttributes {
             match wof_compressed_stream.open(
                 data_stream,
                 wof_data_attribute,
-                data_attribute.valid_data_size,
+                data_attribute.data_size,
             ) {
                 Ok(_) => {}
                 Err(mut error) => {
-- 
2.43.0


From de045eead1ded8348e327191f1ffaee7af29d977 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:27:02 +0000
Subject: [PATCH 115/148] fix: NTFS attribute lists of more than one cluster
 are misread

---
 keramics-formats/src/ntfs/attribute_list.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/keramics-formats/src/ntfs/attribute_list.rs b/keramics-formats/src/ntfs/attribute_list.rs
index d684384..16b1138 100644
--- a/keramics-formats/src/ntfs/attribute_list.rs
+++ b/keramics-formats/src/ntfs/attribute_list.rs
@@ -107,6 +107,7 @@ impl NtfsAttributeList {
                 }
             }
             let mut cluster_block: Vec<u8> = vec![0; cluster_block_size as usize];
+            let mut list_data: Vec<u8> = Vec::new();
 
             loop {
                 let read_count: usize = match block_stream.read(&mut cluster_block) {
@@ -122,15 +123,17 @@ impl NtfsAttributeList {
                 if read_count == 0 {
                     break;
                 }
-                match self.read_data(&cluster_block[..read_count]) {
-                    Ok(_) => {}
-                    Err(mut error) => {
-                        keramics_core::error_trace_add_frame!(
-                            error,
-                            "Unable to read non-resident attribute list"
-                        );
-                        return Err(error);
-                    }
+                list_data.extend_from_slice(&cluster_block[..read_count]);
+            }
+            // Note that an attribute list entry can span multiple cluster blocks.
+            match self.read_data(&list_data) {
+                Ok(_) => {}
+                Err(mut error) => {
+                    keramics_core::error_trace_add_frame!(
+                        error,
+                        "Unable to read non-resident attribute list"
+                    );
+                    return Err(error);
                 }
             }
         }
-- 
2.43.0


From 71bf12ce7a27c410a8d3ef1792a36426640eb095 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:28:00 +0000
Subject: [PATCH 116/148] fix: sub nodes of NTFS indexes with entries smaller
 than a cluster are not found

---
 keramics-formats/src/ntfs/index.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/keramics-formats/src/ntfs/index.rs b/keramics-formats/src/ntfs/index.rs
index 997c20a..7a9dfd1 100644
--- a/keramics-formats/src/ntfs/index.rs
+++ b/keramics-formats/src/ntfs/index.rs
@@ -50,7 +50,14 @@ impl NtfsIndex {
         data_stream: &DataStreamReference,
         virtual_cluster_number: u64,
     ) -> Result<NtfsIndexEntry, ErrorTrace> {
-        let virtual_cluster_offset: u64 = virtual_cluster_number * (self.cluster_block_size as u64);
+        // Note that if the index entry size is smaller than the cluster block size the virtual
+        // cluster number is a number of 512 byte blocks.
+        let virtual_cluster_size: u64 = if self.index_entry_size < self.cluster_block_size {
+            512
+        } else {
+            self.cluster_block_size as u64
+        };
+        let virtual_cluster_offset: u64 = virtual_cluster_number * virtual_cluster_size;
 
         let block_range: &NtfsBlockRange = match self.block_tree.get_value(virtual_cluster_offset) {
             Some(value) => value,
-- 
2.43.0


From 50227b584fa68b2be491f7b5af92c987c4e37f9c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:28:00 +0000
Subject: [PATCH 117/148] fix: NTFS index entries in several data runs are
 refused

---
 keramics-formats/src/ntfs/index.rs       | 70 ++++++++++++++----------
 keramics-formats/src/ntfs/index_entry.rs |  5 ++
 2 files changed, 47 insertions(+), 28 deletions(-)

diff --git a/keramics-formats/src/ntfs/index.rs b/keramics-formats/src/ntfs/index.rs
index 7a9dfd1..9d2188d 100644
--- a/keramics-formats/src/ntfs/index.rs
+++ b/keramics-formats/src/ntfs/index.rs
@@ -11,6 +11,7 @@
  * under the License.
  */
 
+use std::cmp::min;
 use std::io::SeekFrom;
 
 use keramics_core::{DataStreamReference, ErrorTrace};
@@ -59,44 +60,57 @@ impl NtfsIndex {
         };
         let virtual_cluster_offset: u64 = virtual_cluster_number * virtual_cluster_size;
 
-        let block_range: &NtfsBlockRange = match self.block_tree.get_value(virtual_cluster_offset) {
-            Some(value) => value,
-            None => {
-                return Err(keramics_core::error_trace_new!(format!(
-                    "Missing block range for VCN: {}",
-                    virtual_cluster_number
-                )));
-            }
-        };
-        let range_relative_offset: u64 =
-            virtual_cluster_offset - block_range.virtual_cluster_offset;
-        let index_entry_offset: u64 = (block_range.cluster_block_number
-            * (self.cluster_block_size as u64))
-            + range_relative_offset;
-
-        let remaining_range_size: u64 = (block_range.number_of_blocks
-            * (self.cluster_block_size as u64))
-            - range_relative_offset;
-        if remaining_range_size < (self.index_entry_size as u64) {
+        if self.index_entry_size < 42 || self.index_entry_size > 65535 {
             return Err(keramics_core::error_trace_new!(format!(
-                "Block range too small for index entry of size: {}",
+                "Unsupported index entry size: {} value out of bounds",
                 self.index_entry_size
             )));
         }
+        let mut data: Vec<u8> = vec![0; self.index_entry_size as usize];
+        let mut data_offset: usize = 0;
+
+        // Note that an index entry can span multiple data runs.
+        while data_offset < data.len() {
+            let virtual_offset: u64 = virtual_cluster_offset + (data_offset as u64);
+
+            let block_range: &NtfsBlockRange = match self.block_tree.get_value(virtual_offset) {
+                Some(value) => value,
+                None => {
+                    return Err(keramics_core::error_trace_new!(format!(
+                        "Missing block range for VCN: {}",
+                        virtual_cluster_number
+                    )));
+                }
+            };
+            let range_relative_offset: u64 = virtual_offset - block_range.virtual_cluster_offset;
+            let range_offset: u64 = (block_range.cluster_block_number
+                * (self.cluster_block_size as u64))
+                + range_relative_offset;
+
+            let remaining_range_size: u64 = (block_range.number_of_blocks
+                * (self.cluster_block_size as u64))
+                - range_relative_offset;
+            let read_size: usize =
+                min((data.len() - data_offset) as u64, remaining_range_size) as usize;
+            let data_end_offset: usize = data_offset + read_size;
+
+            keramics_core::data_stream_read_exact_at_position!(
+                data_stream,
+                &mut data[data_offset..data_end_offset],
+                SeekFrom::Start(range_offset)
+            );
+            data_offset = data_end_offset;
+        }
         let mut index_entry: NtfsIndexEntry = NtfsIndexEntry::new();
 
-        match index_entry.read_at_position(
-            data_stream,
-            self.index_entry_size,
-            SeekFrom::Start(index_entry_offset),
-        ) {
-            Ok(read_count) => read_count,
+        match index_entry.read_from_data(data) {
+            Ok(_) => {}
             Err(mut error) => {
                 keramics_core::error_trace_add_frame!(
                     error,
                     format!(
-                        "Unable to read index entry at offset: {} (0x{:08x})",
-                        index_entry_offset, index_entry_offset
+                        "Unable to read index entry of VCN: {}",
+                        virtual_cluster_number
                     )
                 );
                 return Err(error);
diff --git a/keramics-formats/src/ntfs/index_entry.rs b/keramics-formats/src/ntfs/index_entry.rs
index e2a20d5..6c7fc4f 100644
--- a/keramics-formats/src/ntfs/index_entry.rs
+++ b/keramics-formats/src/ntfs/index_entry.rs
@@ -104,6 +104,11 @@ impl NtfsIndexEntry {
             ));
             self.mediator.debug_print_data(&data, true);
         }
+        self.read_from_data(data)
+    }
+
+    /// Reads the index entry from data.
+    pub(super) fn read_from_data(&mut self, mut data: Vec<u8>) -> Result<(), ErrorTrace> {
         match self.read_data(&mut data) {
             Ok(_) => {}
             Err(mut error) => {
-- 
2.43.0


From 9bcc558fe110afdf0567468c0e7dfb5c0edf1ca9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:28:00 +0000
Subject: [PATCH 118/148] fix: unused NTFS MFT entries are reported as
 allocated

---
 keramics-formats/src/ntfs/mft_entry.rs        | 2 +-
 keramics-formats/src/ntfs/mft_entry_header.rs | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/keramics-formats/src/ntfs/mft_entry.rs b/keramics-formats/src/ntfs/mft_entry.rs
index b3e04eb..de5ba5b 100644
--- a/keramics-formats/src/ntfs/mft_entry.rs
+++ b/keramics-formats/src/ntfs/mft_entry.rs
@@ -187,7 +187,7 @@ impl NtfsMftEntry {
         self.base_record_file_reference = mft_entry_header.base_record_file_reference;
         self.journal_sequence_number = mft_entry_header.journal_sequence_number;
         self.attributes_offset = mft_entry_header.attributes_offset;
-        self.is_allocated = true;
+        self.is_allocated = mft_entry_header.flags & 0x0001 != 0;
 
         Ok(())
     }
diff --git a/keramics-formats/src/ntfs/mft_entry_header.rs b/keramics-formats/src/ntfs/mft_entry_header.rs
index cc0de11..3a263aa 100644
--- a/keramics-formats/src/ntfs/mft_entry_header.rs
+++ b/keramics-formats/src/ntfs/mft_entry_header.rs
@@ -55,6 +55,9 @@ pub struct NtfsMftEntryHeader {
     /// Attributes offset.
     pub attributes_offset: u16,
 
+    /// Flags.
+    pub flags: u16,
+
     /// MFT entry size.
     pub mft_entry_size: u32,
 
@@ -71,6 +74,7 @@ impl NtfsMftEntryHeader {
             journal_sequence_number: 0,
             sequence_number: 0,
             attributes_offset: 0,
+            flags: 0,
             mft_entry_size: 0,
             base_record_file_reference: 0,
         }
@@ -93,6 +97,7 @@ impl NtfsMftEntryHeader {
         self.journal_sequence_number = bytes_to_u64_le!(data, 8);
         self.sequence_number = bytes_to_u16_le!(data, 16);
         self.attributes_offset = bytes_to_u16_le!(data, 20);
+        self.flags = bytes_to_u16_le!(data, 22);
         self.mft_entry_size = bytes_to_u32_le!(data, 28);
         self.base_record_file_reference = bytes_to_u64_le!(data, 32);
 
-- 
2.43.0


From 1bfba02c8621bd1e69452d54931a613be6def48f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:28:00 +0000
Subject: [PATCH 119/148] fix: empty and bad NTFS MFT entries cannot be opened

---
 keramics-formats/src/ntfs/mft_entry.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/keramics-formats/src/ntfs/mft_entry.rs b/keramics-formats/src/ntfs/mft_entry.rs
index de5ba5b..6c1b699 100644
--- a/keramics-formats/src/ntfs/mft_entry.rs
+++ b/keramics-formats/src/ntfs/mft_entry.rs
@@ -75,6 +75,9 @@ impl NtfsMftEntry {
         &self,
         mft_attributes: &mut NtfsMftAttributes,
     ) -> Result<(), ErrorTrace> {
+        if self.is_empty || self.is_bad {
+            return Ok(());
+        }
         let mut data_offset: usize = self.attributes_offset as usize;
         let data_size: usize = self.data.len();
 
-- 
2.43.0


From d03c1fa8cab269ccadd6000dda803d1a4e422fe0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:28:00 +0000
Subject: [PATCH 120/148] fix: reading NTFS attributes of no size does not end

---
 keramics-formats/src/ntfs/mft_entry.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/keramics-formats/src/ntfs/mft_entry.rs b/keramics-formats/src/ntfs/mft_entry.rs
index 6c1b699..fdabf38 100644
--- a/keramics-formats/src/ntfs/mft_entry.rs
+++ b/keramics-formats/src/ntfs/mft_entry.rs
@@ -101,6 +101,12 @@ impl NtfsMftEntry {
                     return Err(error);
                 }
             }
+            if mft_attribute.attribute_size < 16 {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Invalid MFT attribute size: {} value out of bounds",
+                    mft_attribute.attribute_size
+                )));
+            }
             data_offset += mft_attribute.attribute_size as usize;
 
             match mft_attributes.add_attribute(mft_attribute) {
-- 
2.43.0


From 3082a0ecc063cb9ed1edfc7c781bb477d37f6805 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:28:00 +0000
Subject: [PATCH 121/148] fix: names of NTFS junctions are not read, and empty
 names at the end refused

---
 keramics-formats/src/ntfs/junction_reparse_data.rs      | 4 ++--
 keramics-formats/src/ntfs/reparse_point.rs              | 1 +
 keramics-formats/src/ntfs/symbolic_link_reparse_data.rs | 4 ++--
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/keramics-formats/src/ntfs/junction_reparse_data.rs b/keramics-formats/src/ntfs/junction_reparse_data.rs
index 80a62b2..2d01ccb 100644
--- a/keramics-formats/src/ntfs/junction_reparse_data.rs
+++ b/keramics-formats/src/ntfs/junction_reparse_data.rs
@@ -58,7 +58,7 @@ impl NtfsJunctionReparseData {
 
         let data_offset: usize = (substitute_name_offset as usize) + 8;
 
-        if data_offset >= data_size {
+        if data_offset > data_size {
             return Err(keramics_core::error_trace_new!(
                 "Invalid substitute name offset value out of bounds"
             ));
@@ -78,7 +78,7 @@ impl NtfsJunctionReparseData {
 
         let data_offset: usize = (display_name_offset as usize) + 8;
 
-        if data_offset >= data_size {
+        if data_offset > data_size {
             return Err(keramics_core::error_trace_new!(
                 "Invalid display name offset value out of bounds"
             ));
diff --git a/keramics-formats/src/ntfs/reparse_point.rs b/keramics-formats/src/ntfs/reparse_point.rs
index 7e1801e..d1117d6 100644
--- a/keramics-formats/src/ntfs/reparse_point.rs
+++ b/keramics-formats/src/ntfs/reparse_point.rs
@@ -67,6 +67,7 @@ impl NtfsReparsePoint {
     /// Reads the reparse data from a buffer.
     pub fn read_data(&mut self, data: &[u8]) -> Result<(), ErrorTrace> {
         match self {
+            NtfsReparsePoint::Junction { reparse_data } => reparse_data.read_data(data),
             NtfsReparsePoint::SymbolicLink { reparse_data } => reparse_data.read_data(data),
             NtfsReparsePoint::WindowsOverlayFilter { reparse_data } => reparse_data.read_data(data),
             _ => Ok(()),
diff --git a/keramics-formats/src/ntfs/symbolic_link_reparse_data.rs b/keramics-formats/src/ntfs/symbolic_link_reparse_data.rs
index 9a1a90e..3767b35 100644
--- a/keramics-formats/src/ntfs/symbolic_link_reparse_data.rs
+++ b/keramics-formats/src/ntfs/symbolic_link_reparse_data.rs
@@ -59,7 +59,7 @@ impl NtfsSymbolicLinkReparseData {
 
         let data_offset: usize = (substitute_name_offset as usize) + 12;
 
-        if data_offset >= data_size {
+        if data_offset > data_size {
             return Err(keramics_core::error_trace_new!(
                 "Invalid substitute name offset value out of bounds"
             ));
@@ -79,7 +79,7 @@ impl NtfsSymbolicLinkReparseData {
 
         let data_offset: usize = (display_name_offset as usize) + 12;
 
-        if data_offset >= data_size {
+        if data_offset > data_size {
             return Err(keramics_core::error_trace_new!(
                 "Invalid display name offset value out of bounds"
             ));
-- 
2.43.0


From e03cf52cf98d09097d5e92a7b045e00cb22ad71c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:29:34 +0000
Subject: [PATCH 122/148] fix: data runs of the NTFS MFT in several attributes
 of one entry are ignored

---
 .../src/ntfs/master_file_table.rs             | 30 +++++++++++--------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/keramics-formats/src/ntfs/master_file_table.rs b/keramics-formats/src/ntfs/master_file_table.rs
index faecbde..473a9c1 100644
--- a/keramics-formats/src/ntfs/master_file_table.rs
+++ b/keramics-formats/src/ntfs/master_file_table.rs
@@ -219,11 +219,13 @@ impl NtfsMasterFileTable {
         self.cluster_block_size = cluster_block_size;
         self.mft_entry_size = mft_entry_size;
 
-        match self.add_cluster_group(&data_attribute.data_cluster_groups[0]) {
-            Ok(_) => {}
-            Err(mut error) => {
-                keramics_core::error_trace_add_frame!(error, "Unable to add cluster group");
-                return Err(error);
+        for cluster_group in data_attribute.data_cluster_groups.iter() {
+            match self.add_cluster_group(cluster_group) {
+                Ok(_) => {}
+                Err(mut error) => {
+                    keramics_core::error_trace_add_frame!(error, "Unable to add cluster group");
+                    return Err(error);
+                }
             }
         }
         let mft_entries: Vec<u64> = match mft_attributes.attribute_list {
@@ -289,14 +291,16 @@ impl NtfsMasterFileTable {
 
             match mft_attributes.get_attribute(&None, NTFS_ATTRIBUTE_TYPE_DATA) {
                 Some(mft_attribute) => {
-                    match self.add_cluster_group(&mft_attribute.data_cluster_groups[0]) {
-                        Ok(_) => {}
-                        Err(mut error) => {
-                            keramics_core::error_trace_add_frame!(
-                                error,
-                                "Unable to add cluster group"
-                            );
-                            return Err(error);
+                    for cluster_group in mft_attribute.data_cluster_groups.iter() {
+                        match self.add_cluster_group(cluster_group) {
+                            Ok(_) => {}
+                            Err(mut error) => {
+                                keramics_core::error_trace_add_frame!(
+                                    error,
+                                    "Unable to add cluster group"
+                                );
+                                return Err(error);
+                            }
                         }
                     }
                 }
-- 
2.43.0


From 4775b648a5288a1e54a5c2549d527278357f8202 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:11:09 +0000
Subject: [PATCH 123/148] fix: VFS context returns a cached file system of
 another type

---
 keramics-vfs/src/context.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/keramics-vfs/src/context.rs b/keramics-vfs/src/context.rs
index dc5a0e7..4c6d67a 100644
--- a/keramics-vfs/src/context.rs
+++ b/keramics-vfs/src/context.rs
@@ -26,7 +26,7 @@ use super::types::VfsFileSystemReference;
 /// Virtual File System (VFS) context.
 pub struct VfsContext {
     /// File systems.
-    file_systems: HashMap<VfsLocation, Weak<VfsFileSystem>>,
+    file_systems: HashMap<(VfsType, VfsLocation), Weak<VfsFileSystem>>,
 
     /// Operating system (OS) file system path.
     os_vfs_location: VfsLocation,
@@ -90,12 +90,14 @@ impl VfsContext {
         };
         let parent_vfs_location: Option<&VfsLocation> = vfs_location.get_parent();
 
-        let lookup_key: &VfsLocation = match parent_vfs_location {
-            Some(parent_vfs_location) => parent_vfs_location,
-            None => &self.os_vfs_location,
+        // The same location can contain different types of file systems, such as a hybrid
+        // GPT and MBR.
+        let lookup_key: (VfsType, VfsLocation) = match parent_vfs_location {
+            Some(parent_vfs_location) => (vfs_type.clone(), parent_vfs_location.clone()),
+            None => (vfs_type.clone(), self.os_vfs_location.clone()),
         };
         let cached_file_system: Option<VfsFileSystemReference> =
-            match self.file_systems.get(lookup_key) {
+            match self.file_systems.get(&lookup_key) {
                 Some(file_system) => file_system.upgrade(),
                 None => None,
             };
@@ -115,12 +117,8 @@ impl VfsContext {
                     },
                     None => None,
                 };
-                let file_system_path: VfsLocation = match parent_vfs_location {
-                    Some(parent_vfs_location) => parent_vfs_location.clone(),
-                    None => self.os_vfs_location.clone(),
-                };
                 let mut file_system: VfsFileSystem = VfsFileSystem::new(&vfs_type);
-                match file_system.open(parent_file_system.as_ref(), &file_system_path) {
+                match file_system.open(parent_file_system.as_ref(), &lookup_key.1) {
                     Ok(()) => {}
                     Err(mut error) => {
                         keramics_core::error_trace_add_frame!(error, "Unable to open file system");
@@ -131,7 +129,7 @@ impl VfsContext {
                     VfsFileSystemReference::new(file_system);
 
                 self.file_systems.insert(
-                    file_system_path,
+                    lookup_key,
                     VfsFileSystemReference::downgrade(&cached_file_system),
                 );
                 Ok(cached_file_system)
-- 
2.43.0


From 6210a8468ce435a636ac5dcee1bb4bbd66bd990e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:11:09 +0000
Subject: [PATCH 124/148] fix: string representation of a VFS location has its
 parent and type swapped

---
 keramics-vfs/src/location.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keramics-vfs/src/location.rs b/keramics-vfs/src/location.rs
index db810b0..0e707fc 100644
--- a/keramics-vfs/src/location.rs
+++ b/keramics-vfs/src/location.rs
@@ -102,8 +102,8 @@ impl VfsLocation {
             } => {
                 format!(
                     "{}\ntype: {}: path: {}\n",
-                    vfs_type.as_str(),
                     parent.to_string(),
+                    vfs_type.as_str(),
                     path.to_string()
                 )
             }
-- 
2.43.0


From 0ce67fd1a3b4ba79bc26423a809a84f8bed3af98 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:11:09 +0000
Subject: [PATCH 125/148] fix: VFS scanner fails on sparse image and UDIF
 layers

---
 keramics-vfs/src/scanner/scanner.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/keramics-vfs/src/scanner/scanner.rs b/keramics-vfs/src/scanner/scanner.rs
index 1fdca15..853c7be 100644
--- a/keramics-vfs/src/scanner/scanner.rs
+++ b/keramics-vfs/src/scanner/scanner.rs
@@ -184,6 +184,8 @@ impl VfsScanner {
             }
             VfsType::Ewf { .. }
             | VfsType::Qcow { .. }
+            | VfsType::SparseImage { .. }
+            | VfsType::Udif { .. }
             | VfsType::Vhd { .. }
             | VfsType::Vhdx { .. } => {
                 let mut result: Option<VfsType> =
-- 
2.43.0


From 957597bd8c6cb0c071b1a20f4e4bc3aaa907e05b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:11:17 +0000
Subject: [PATCH 126/148] fix: leading components of relative NTFS symbolic
 link targets are dropped

---
 keramics-vfs/src/file_entry.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/keramics-vfs/src/file_entry.rs b/keramics-vfs/src/file_entry.rs
index 6c099dc..51d60ac 100644
--- a/keramics-vfs/src/file_entry.rs
+++ b/keramics-vfs/src/file_entry.rs
@@ -310,10 +310,13 @@ impl VfsFileEntry {
             {
                 Ok(result) => match result {
                     Some(name) => {
-                        let path_components: Vec<Ucs2String> = name
-                            .elements
+                        // Strip leading "\\??\\".
+                        let elements: &[u16] = name.elements.as_slice();
+                        let elements: &[u16] = elements
+                            .strip_prefix(&[0x005c, 0x003f, 0x003f, 0x005c])
+                            .unwrap_or(elements);
+                        let path_components: Vec<Ucs2String> = elements
                             .split(|value| *value == 0x005c)
-                            .skip(2) // Strip leading "\\??\\".
                             .map(|component| Ucs2String::from(component))
                             .collect::<Vec<Ucs2String>>();
                         Ok(Some(VfsPath::Ntfs(NtfsPath {
-- 
2.43.0


From ad24cd7641124f4de7cd1c40bda8b976c92aaa06 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:12:28 +0000
Subject: [PATCH 127/148] fix: OS file entry dates before 1901 or after 2038
 wrap

---
 keramics-vfs/src/os/file_entry.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keramics-vfs/src/os/file_entry.rs b/keramics-vfs/src/os/file_entry.rs
index 013511b..7202645 100644
--- a/keramics-vfs/src/os/file_entry.rs
+++ b/keramics-vfs/src/os/file_entry.rs
@@ -117,7 +117,7 @@ impl OsFileEntry {
     /// Determines the POSIX date and time value.
     #[cfg(unix)]
     fn get_posix_datetime_value(timestamp: i64, fraction: i64) -> DateTime {
-        if fraction != 0 {
+        if fraction != 0 || i32::try_from(timestamp).is_err() {
             DateTime::PosixTime64Ns(PosixTime64Ns::new(timestamp, fraction as u32))
         } else if timestamp != 0 {
             DateTime::PosixTime32(PosixTime32::new(timestamp as i32))
-- 
2.43.0


From d6ac28de730a35b7fba9786dea5cc40c6af2aa60 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:32:00 +0000
Subject: [PATCH 128/148] fix: bodyfile of a FAT file system fails on its dates

---
 keramics-tools/src/bodyfile.rs | 37 ++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/keramics-tools/src/bodyfile.rs b/keramics-tools/src/bodyfile.rs
index c1dfae6..cd0c2e4 100644
--- a/keramics-tools/src/bodyfile.rs
+++ b/keramics-tools/src/bodyfile.rs
@@ -53,6 +53,29 @@ impl Bodyfile {
         Ok(format_as_string(&hash_value))
     }
 
+    /// Retrieves the number of seconds since January 1, 1970 00:00:00 of a FAT date and time.
+    fn get_fat_posix_time(date: u16, time: u16) -> i64 {
+        let mut year: i64 = 1980 + ((date >> 9) & 0x7f) as i64;
+        let mut month: i64 = ((date >> 5) & 0x0f) as i64;
+        let day_of_month: i64 = (date & 0x1f) as i64;
+        let hours: i64 = ((time >> 11) & 0x1f) as i64;
+        let minutes: i64 = ((time >> 5) & 0x3f) as i64;
+        let seconds: i64 = (time & 0x1f) as i64 * 2;
+
+        // Count from March, so that a leap day is the last day of the year.
+        if month < 3 {
+            year -= 1;
+            month += 12;
+        }
+        let number_of_days: i64 = (year * 365) + (year / 4) - (year / 100)
+            + (year / 400)
+            + (((month - 3) * 153) + 2) / 5
+            + day_of_month
+            - 719469;
+
+        (number_of_days * 86400) + (hours * 3600) + (minutes * 60) + seconds
+    }
+
     /// Formats a date and time value as a bodyfile timestamp.
     pub fn format_as_timestamp(date_time: Option<&DateTime>) -> Result<String, ErrorTrace> {
         // Note that a timestamp value of 0 can represent that the timestamp is not present or
@@ -60,6 +83,20 @@ impl Bodyfile {
 
         let string: String = match date_time {
             Some(date_time) => match date_time {
+                DateTime::FatDate(fat_date) => {
+                    format!("{}", Self::get_fat_posix_time(fat_date.date, 0))
+                }
+                DateTime::FatTimeDate(fat_time_date) => format!(
+                    "{}",
+                    Self::get_fat_posix_time(fat_time_date.date, fat_time_date.time)
+                ),
+                DateTime::FatTimeDate10Ms(fat_time_date) => {
+                    let posix_time: i64 =
+                        Self::get_fat_posix_time(fat_time_date.date, fat_time_date.time)
+                            + (fat_time_date.fraction / 100) as i64;
+
+                    format!("{}.{:02}", posix_time, fat_time_date.fraction % 100)
+                }
                 DateTime::Filetime(filetime) => {
                     let mut number_of_seconds: u64 = filetime.timestamp / 10000000;
                     let mut fraction: u64 = filetime.timestamp % 10000000;
-- 
2.43.0


From 61c3446dfb8a7c8c6710fa135a5e43cc82d4b314 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:32:00 +0000
Subject: [PATCH 129/148] fix: bodyfile timestamps with a fraction of a second
 before 1970 are wrong

---
 keramics-tools/src/bodyfile.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/keramics-tools/src/bodyfile.rs b/keramics-tools/src/bodyfile.rs
index cd0c2e4..2040506 100644
--- a/keramics-tools/src/bodyfile.rs
+++ b/keramics-tools/src/bodyfile.rs
@@ -107,14 +107,31 @@ impl Bodyfile {
                     };
                     let posix_time: i64 = (number_of_seconds as i64) - 11644473600;
 
-                    format!("{}.{:07}", posix_time, fraction)
+                    // Note that an integer of 0 has no sign.
+                    let sign: &str = if filetime.timestamp < 116444736000000000 {
+                        "-"
+                    } else {
+                        ""
+                    };
+                    format!("{}{}.{:07}", sign, posix_time.abs(), fraction)
                 }
                 DateTime::NotSet => String::from(""),
                 DateTime::PosixTime32(posix_time32) => format!("{}", posix_time32.timestamp),
-                DateTime::PosixTime64Ns(posix_time64ns) => format!(
-                    "{}.{:09}",
-                    posix_time64ns.timestamp, posix_time64ns.fraction
-                ),
+                DateTime::PosixTime64Ns(posix_time64ns) => {
+                    let mut posix_time: i64 = posix_time64ns.timestamp;
+                    let mut fraction: u32 = posix_time64ns.fraction;
+                    let mut sign: &str = "";
+
+                    if posix_time < 0 {
+                        if fraction > 0 && fraction < 1000000000 {
+                            posix_time += 1;
+                            fraction = 1000000000 - fraction;
+                        }
+                        posix_time = -posix_time;
+                        sign = "-";
+                    }
+                    format!("{}{}.{:09}", sign, posix_time, fraction)
+                }
                 _ => return Err(keramics_core::error_trace_new!("Unsupported date time")),
             },
             None => String::from(""),
-- 
2.43.0


From adb4acd6dc464f1b34b70d7f68b00fe7032bff54 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:38:17 +0000
Subject: [PATCH 130/148] fix: display path of a name that cannot be decoded
 panics

---
 keramics-tools/src/display_path.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/keramics-tools/src/display_path.rs b/keramics-tools/src/display_path.rs
index f10c700..87ff562 100644
--- a/keramics-tools/src/display_path.rs
+++ b/keramics-tools/src/display_path.rs
@@ -54,6 +54,21 @@ impl DisplayPath {
         string_parts.join("")
     }
 
+    /// Escapes the bytes of a string that cannot be decoded, other than ASCII, as \U0000dc##.
+    fn escape_undecodable_string(&self, elements: &[u8]) -> String {
+        elements
+            .iter()
+            .map(|element| {
+                if *element < 0x80 {
+                    self.internal_escape_string(&char::from(*element).to_string())
+                } else {
+                    format!("\\U{:08x}", 0xdc00 + (*element as u32))
+                }
+            })
+            .collect::<Vec<String>>()
+            .join("")
+    }
+
     /// Escapes unprintable characters in a VFS string.
     pub fn escape_string(&self, vfs_string: &VfsString) -> String {
         match vfs_string {
@@ -76,7 +91,7 @@ impl DisplayPath {
                             };
                             string_parts.push(string);
                         }
-                        Err(error) => todo!(),
+                        Err(_) => return self.escape_undecodable_string(&byte_string.elements),
                     }
                 }
                 string_parts.join("")
-- 
2.43.0


From bcb428a89bde1a25fce4c362c3114efd23e5c0db Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:04:51 +0000
Subject: [PATCH 131/148] fix: LZX uncompressed block after a block header that
 ends on a word boundary is misread

---
 keramics-compression/src/lzx.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/keramics-compression/src/lzx.rs b/keramics-compression/src/lzx.rs
index 81550a2..72a9b16 100644
--- a/keramics-compression/src/lzx.rs
+++ b/keramics-compression/src/lzx.rs
@@ -70,6 +70,17 @@ impl<'a> LzxBitstream<'a> {
         }
     }
 
+    /// Aligns the bitstream with the start of an uncompressed block.
+    /// Note that this flushes the internal bits buffer and that there is at least 1 bit of
+    /// padding before the next 16-bit boundary.
+    pub fn align(&mut self) {
+        if self.number_of_bits == 0 {
+            self.data_offset = min(self.data_offset + 2, self.data_size);
+        }
+        self.bits = 0;
+        self.number_of_bits = 0;
+    }
+
     /// Copies bytes from the bitstream.
     /// Note that this flushes the internal bits buffer.
     pub fn copy_bytes(
@@ -294,6 +305,8 @@ impl LzxContext {
                     )?;
                 }
                 3 => {
+                    bitstream.align();
+
                     if 12 > bitstream.data_size - bitstream.data_offset {
                         return Err(keramics_core::error_trace_new!(
                             "Invalid compressed data value too small"
-- 
2.43.0


From 619db1aa0172ddaf0cc7b58600e93e3c5a0faa67 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:04:52 +0000
Subject: [PATCH 132/148] fix: block after an LZX uncompressed block with an
 odd size is misread

---
 keramics-compression/src/lzx.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/keramics-compression/src/lzx.rs b/keramics-compression/src/lzx.rs
index 72a9b16..bc71569 100644
--- a/keramics-compression/src/lzx.rs
+++ b/keramics-compression/src/lzx.rs
@@ -349,6 +349,13 @@ impl LzxContext {
                         uncompressed_data_size,
                     )?;
                     uncompressed_data_offset += uncompressed_block_size;
+
+                    // An uncompressed block with an odd size is followed by a padding byte.
+                    if uncompressed_block_size % 2 != 0
+                        && bitstream.data_offset < bitstream.data_size
+                    {
+                        bitstream.data_offset += 1;
+                    }
                 }
                 _ => {
                     return Err(keramics_core::error_trace_new!(format!(
-- 
2.43.0


From e74a0e7300da062b792143b03960ac4073dad73d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:04:52 +0000
Subject: [PATCH 133/148] fix: LZX block without match sizes is refused

---
 keramics-compression/src/lzx.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/keramics-compression/src/lzx.rs b/keramics-compression/src/lzx.rs
index bc71569..569c0c9 100644
--- a/keramics-compression/src/lzx.rs
+++ b/keramics-compression/src/lzx.rs
@@ -289,14 +289,22 @@ impl LzxContext {
 
                     self.read_code_sizes(&mut bitstream, &mut match_sizes_code_sizes, 249)?;
 
-                    let mut match_sizes_huffman_tree: HuffmanTree = HuffmanTree::new(249, 16);
-                    match_sizes_huffman_tree.build(&match_sizes_code_sizes)?;
+                    // A block without matches that are longer than 8 bytes has no match sizes.
+                    let match_sizes_huffman_tree: Option<HuffmanTree> =
+                        if match_sizes_code_sizes.iter().all(|&size| size == 0) {
+                            None
+                        } else {
+                            let mut huffman_tree: HuffmanTree = HuffmanTree::new(249, 16);
+                            huffman_tree.build(&match_sizes_code_sizes)?;
+
+                            Some(huffman_tree)
+                        };
 
                     self.decompress_huffmann_encoded_block(
                         &mut bitstream,
                         block_size,
                         &literals_huffman_tree,
-                        &match_sizes_huffman_tree,
+                        match_sizes_huffman_tree.as_ref(),
                         aligned_offsets_huffman_tree.as_ref(),
                         &mut recent_distances,
                         uncompressed_data,
@@ -415,7 +423,7 @@ impl LzxContext {
         bitstream: &mut LzxBitstream,
         block_size: u32,
         literals_huffman_tree: &HuffmanTree,
-        match_sizes_huffman_tree: &HuffmanTree,
+        match_sizes_huffman_tree: Option<&HuffmanTree>,
         aligned_offsets_huffman_tree: Option<&HuffmanTree>,
         recent_distances: &mut [u32],
         uncompressed_data: &mut [u8],
@@ -446,7 +454,16 @@ impl LzxContext {
                 let mut match_size: u32 = (symbol % 8) as u32;
 
                 if match_size == 7 {
-                    match_size += match_sizes_huffman_tree.decode_symbol(bitstream)? as u32;
+                    match match_sizes_huffman_tree {
+                        Some(huffman_tree) => {
+                            match_size += huffman_tree.decode_symbol(bitstream)? as u32;
+                        }
+                        None => {
+                            return Err(keramics_core::error_trace_new!(
+                                "Missing match sizes Huffman tree"
+                            ));
+                        }
+                    };
                 }
                 match_size += 2;
 
-- 
2.43.0


From 6da5b13a2759ff2ea3663375e1d24b427955291b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:04:52 +0000
Subject: [PATCH 134/148] fix: LZX data of less than 6 bytes is refused

---
 keramics-compression/src/lzx.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/keramics-compression/src/lzx.rs b/keramics-compression/src/lzx.rs
index 569c0c9..65b1602 100644
--- a/keramics-compression/src/lzx.rs
+++ b/keramics-compression/src/lzx.rs
@@ -386,11 +386,15 @@ impl LzxContext {
         uncompressed_data: &mut [u8],
         uncompressed_data_size: usize,
     ) -> Result<(), ErrorTrace> {
-        if uncompressed_data_size < 6 || uncompressed_data_size > (i32::MAX as usize) {
+        if uncompressed_data_size > (i32::MAX as usize) {
             return Err(keramics_core::error_trace_new!(
                 "Invalid uncompressed data size value out of bounds"
             ));
         }
+        // The end of the data is too small to contain a call instruction.
+        if uncompressed_data_size < 6 {
+            return Ok(());
+        }
         let mut data_offset: usize = 0;
 
         while data_offset < uncompressed_data_size - 6 {
-- 
2.43.0


From ec2b013dde67b176a9b0f2e24297c3d12f937da0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:09:30 +0000
Subject: [PATCH 135/148] fix: truncated LZX data is decompressed to other
 bytes

---
 keramics-compression/src/lzx.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/keramics-compression/src/lzx.rs b/keramics-compression/src/lzx.rs
index 65b1602..8b9c2db 100644
--- a/keramics-compression/src/lzx.rs
+++ b/keramics-compression/src/lzx.rs
@@ -55,6 +55,9 @@ pub(super) struct LzxBitstream<'a> {
 
     /// Number of bits in the bits buffer.
     pub number_of_bits: usize,
+
+    /// Value to indicate more bits were read than available in the byte stream.
+    pub has_overflow: bool,
 }
 
 impl<'a> LzxBitstream<'a> {
@@ -67,6 +70,7 @@ impl<'a> LzxBitstream<'a> {
             data_size: data_size,
             bits: 0,
             number_of_bits: 0,
+            has_overflow: false,
         }
     }
 
@@ -125,6 +129,8 @@ impl<'a> LzxBitstream<'a> {
             if self.data_size - self.data_offset >= 2 {
                 self.bits |= bytes_to_u16_le!(self.data, self.data_offset) as u32;
                 self.data_offset += 2;
+            } else {
+                self.has_overflow = true;
             }
             self.number_of_bits += 16;
         }
@@ -372,6 +378,11 @@ impl LzxContext {
                     )));
                 }
             };
+            if bitstream.has_overflow {
+                return Err(keramics_core::error_trace_new!(
+                    "Invalid compressed data value too small"
+                ));
+            }
         }
         self.decompress_adjust_call_instructions(uncompressed_data, uncompressed_data_offset)?;
 
-- 
2.43.0


From 360e42376b794069748c729afd49ee78d0156705 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:47:07 +0000
Subject: [PATCH 136/148] fix: extension of a byte or UCS-2 path component
 panics

---
 keramics-formats/src/path_component.rs | 66 +++++++++++++++++++++++++-
 1 file changed, 64 insertions(+), 2 deletions(-)

diff --git a/keramics-formats/src/path_component.rs b/keramics-formats/src/path_component.rs
index 6cfb3f7..3ebddd5 100644
--- a/keramics-formats/src/path_component.rs
+++ b/keramics-formats/src/path_component.rs
@@ -23,6 +23,8 @@ pub enum PathComponent {
 }
 
 impl PathComponent {
+    const EXTENSION_SEPARATOR: u8 = b'.';
+
     /// Retrieves the extension if available.
     pub fn extension(&self) -> Option<PathComponent> {
         match self {
@@ -39,7 +41,33 @@ impl PathComponent {
                     }
                 }
             }
-            _ => todo!(),
+            PathComponent::ByteString(byte_string) => {
+                match byte_string
+                    .elements
+                    .iter()
+                    .rposition(|value| *value == Self::EXTENSION_SEPARATOR)
+                    .filter(|value_index| *value_index > 0)
+                {
+                    Some(value_index) => Some(PathComponent::ByteString(ByteString {
+                        encoding: byte_string.encoding.clone(),
+                        elements: byte_string.elements[value_index + 1..].to_vec(),
+                    })),
+                    None => None,
+                }
+            }
+            PathComponent::Ucs2String(ucs2_string) => {
+                match ucs2_string
+                    .elements
+                    .iter()
+                    .rposition(|value| *value == Self::EXTENSION_SEPARATOR as u16)
+                    .filter(|value_index| *value_index > 0)
+                {
+                    Some(value_index) => Some(PathComponent::Ucs2String(Ucs2String {
+                        elements: ucs2_string.elements[value_index + 1..].to_vec(),
+                    })),
+                    None => None,
+                }
+            }
         }
     }
 
@@ -58,7 +86,41 @@ impl PathComponent {
                     }
                 }
             }
-            _ => todo!(),
+            PathComponent::ByteString(byte_string) => {
+                if byte_string.is_empty() {
+                    None
+                } else {
+                    match byte_string
+                        .elements
+                        .iter()
+                        .rposition(|value| *value == Self::EXTENSION_SEPARATOR)
+                        .filter(|value_index| *value_index > 0)
+                    {
+                        Some(value_index) => Some(PathComponent::ByteString(ByteString {
+                            encoding: byte_string.encoding.clone(),
+                            elements: byte_string.elements[0..value_index].to_vec(),
+                        })),
+                        None => Some(PathComponent::ByteString(byte_string.clone())),
+                    }
+                }
+            }
+            PathComponent::Ucs2String(ucs2_string) => {
+                if ucs2_string.is_empty() {
+                    None
+                } else {
+                    match ucs2_string
+                        .elements
+                        .iter()
+                        .rposition(|value| *value == Self::EXTENSION_SEPARATOR as u16)
+                        .filter(|value_index| *value_index > 0)
+                    {
+                        Some(value_index) => Some(PathComponent::Ucs2String(Ucs2String {
+                            elements: ucs2_string.elements[0..value_index].to_vec(),
+                        })),
+                        None => Some(PathComponent::Ucs2String(ucs2_string.clone())),
+                    }
+                }
+            }
         }
     }
 
-- 
2.43.0


From dc4f59c0f997bd005ed99ad96126ffeb4f49c81b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:06:25 +0000
Subject: [PATCH 137/148] Verification hook: guarded access to property lists

---
 keramics-formats/src/verif.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/keramics-formats/src/verif.rs b/keramics-formats/src/verif.rs
index c8ecbf0..bf9dcda 100644
--- a/keramics-formats/src/verif.rs
+++ b/keramics-formats/src/verif.rs
@@ -3,6 +3,8 @@
 use crate::block_tree::BlockTree;
 use crate::lru_cache::LruCache;
 
+pub use crate::plist::{PlistObject, XmlPlist};
+
 /// Block tree with numbers as values.
 pub struct VerifBlockTree {
     tree: BlockTree<u64>,
-- 
2.43.0


From b4a101844e333c47d7629c03b060d914feca0ed8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:08:49 +0000
Subject: [PATCH 138/148] fix: XML plist elements without content cannot be
 read

---
 keramics-formats/src/plist/xmlplist.pest | 60 ++++++++++++++++++++----
 keramics-formats/src/plist/xmlplist.rs   | 24 ++++------
 2 files changed, 58 insertions(+), 26 deletions(-)

diff --git a/keramics-formats/src/plist/xmlplist.pest b/keramics-formats/src/plist/xmlplist.pest
index 153739d..e5ec32f 100644
--- a/keramics-formats/src/plist/xmlplist.pest
+++ b/keramics-formats/src/plist/xmlplist.pest
@@ -434,15 +434,20 @@ plist_key_and_object_element_pair = {
 }
 
 plist_boolean_false_element = {
-    "<false" ~ (white_space ~ attribute)* ~ white_space? ~ "/>"
+    "<false" ~ (white_space ~ attribute)* ~ white_space? ~ ("/>" | (">" ~ "</false" ~ white_space? ~ ">"))
 }
 
 plist_boolean_true_element = {
-    "<true" ~ (white_space ~ attribute)* ~ white_space? ~ "/>"
+    "<true" ~ (white_space ~ attribute)* ~ white_space? ~ ("/>" | (">" ~ "</true" ~ white_space? ~ ">"))
 }
 
 plist_array_element = {
-    plist_array_element_start_tag ~ plist_content ~ plist_array_element_end_tag
+    plist_array_element_empty_tag |
+    (plist_array_element_start_tag ~ plist_content ~ plist_array_element_end_tag)
+}
+
+plist_array_element_empty_tag = {
+    "<array" ~ (white_space ~ attribute)* ~ white_space? ~ "/>"
 }
 
 plist_array_element_start_tag = {
@@ -454,7 +459,12 @@ plist_array_element_end_tag = {
 }
 
 plist_data_element = {
-    plist_data_element_start_tag ~ plist_content ~ plist_data_element_end_tag
+    plist_data_element_empty_tag |
+    (plist_data_element_start_tag ~ plist_content ~ plist_data_element_end_tag)
+}
+
+plist_data_element_empty_tag = {
+    "<data" ~ (white_space ~ attribute)* ~ white_space? ~ "/>"
 }
 
 plist_data_element_start_tag = {
@@ -466,7 +476,12 @@ plist_data_element_end_tag = {
 }
 
 plist_date_element = {
-    plist_date_element_start_tag ~ plist_content ~ plist_date_element_end_tag
+    plist_date_element_empty_tag |
+    (plist_date_element_start_tag ~ plist_content ~ plist_date_element_end_tag)
+}
+
+plist_date_element_empty_tag = {
+    "<date" ~ (white_space ~ attribute)* ~ white_space? ~ "/>"
 }
 
 plist_date_element_start_tag = {
@@ -478,7 +493,12 @@ plist_date_element_end_tag = {
 }
 
 plist_dict_element = {
-    plist_dict_element_start_tag ~ plist_dict_content ~ plist_dict_element_end_tag
+    plist_dict_element_empty_tag |
+    (plist_dict_element_start_tag ~ plist_dict_content ~ plist_dict_element_end_tag)
+}
+
+plist_dict_element_empty_tag = {
+    "<dict" ~ (white_space ~ attribute)* ~ white_space? ~ "/>"
 }
 
 plist_dict_element_start_tag = {
@@ -494,7 +514,12 @@ plist_dict_content = {
 }
 
 plist_floating_point_element = {
-    plist_floating_point_element_start_tag ~ plist_content ~ plist_floating_point_element_end_tag
+    plist_floating_point_element_empty_tag |
+    (plist_floating_point_element_start_tag ~ plist_content ~ plist_floating_point_element_end_tag)
+}
+
+plist_floating_point_element_empty_tag = {
+    "<real" ~ (white_space ~ attribute)* ~ white_space? ~ "/>"
 }
 
 plist_floating_point_element_start_tag = {
@@ -506,7 +531,12 @@ plist_floating_point_element_end_tag = {
 }
 
 plist_integer_element = {
-    plist_integer_element_start_tag ~ plist_content ~ plist_integer_element_end_tag
+    plist_integer_element_empty_tag |
+    (plist_integer_element_start_tag ~ plist_content ~ plist_integer_element_end_tag)
+}
+
+plist_integer_element_empty_tag = {
+    "<integer" ~ (white_space ~ attribute)* ~ white_space? ~ "/>"
 }
 
 plist_integer_element_start_tag = {
@@ -518,7 +548,12 @@ plist_integer_element_end_tag = {
 }
 
 plist_key_element = {
-    plist_key_element_start_tag ~ plist_content ~ plist_key_element_end_tag
+    plist_key_element_empty_tag |
+    (plist_key_element_start_tag ~ plist_content ~ plist_key_element_end_tag)
+}
+
+plist_key_element_empty_tag = {
+    "<key" ~ (white_space ~ attribute)* ~ white_space? ~ "/>"
 }
 
 plist_key_element_start_tag = {
@@ -530,7 +565,12 @@ plist_key_element_end_tag = {
 }
 
 plist_string_element = {
-    plist_string_element_start_tag ~ plist_content ~ plist_string_element_end_tag
+    plist_string_element_empty_tag |
+    (plist_string_element_start_tag ~ plist_content ~ plist_string_element_end_tag)
+}
+
+plist_string_element_empty_tag = {
+    "<string" ~ (white_space ~ attribute)* ~ white_space? ~ "/>"
 }
 
 plist_string_element_start_tag = {
diff --git a/keramics-formats/src/plist/xmlplist.rs b/keramics-formats/src/plist/xmlplist.rs
index b8e1d44..d488485 100644
--- a/keramics-formats/src/plist/xmlplist.rs
+++ b/keramics-formats/src/plist/xmlplist.rs
@@ -136,9 +136,8 @@ impl XmlPlist {
 
         let token_pair: Pair<Rule> = match inner_pairs.next() {
             Some(token_pair) => token_pair,
-            None => {
-                return Err(keramics_core::error_trace_new!("Missing array element"));
-            }
+            // An element without content.
+            None => return Ok(PlistObject::Array(Vec::new())),
         };
         let array_values: Vec<PlistObject> = match self
             .parse_plist_array_content(token_pair.into_inner())
@@ -206,11 +205,8 @@ impl XmlPlist {
 
         let token_pair: Pair<Rule> = match inner_pairs.next() {
             Some(token_pair) => token_pair,
-            None => {
-                return Err(keramics_core::error_trace_new!(
-                    "Missing plist dict element"
-                ));
-            }
+            // An element without content.
+            None => return Ok(PlistObject::Dictionary(HashMap::new())),
         };
         let dict_values: HashMap<String, PlistObject> = match self
             .parse_plist_dict_content(token_pair.into_inner())
@@ -273,9 +269,8 @@ impl XmlPlist {
 
         let token_pair: Pair<Rule> = match inner_pairs.next() {
             Some(token_pair) => token_pair,
-            None => {
-                return Err(keramics_core::error_trace_new!("Missing data element"));
-            }
+            // An element without content.
+            None => return Ok(PlistObject::Data(Vec::new())),
         };
         let encoded_data: &[u8] = token_pair.as_str().as_bytes();
 
@@ -614,11 +609,8 @@ impl XmlPlist {
 
         let token_pair: Pair<Rule> = match inner_pairs.next() {
             Some(token_pair) => token_pair,
-            None => {
-                return Err(keramics_core::error_trace_new!(
-                    "Missing plist string element"
-                ));
-            }
+            // An element without content.
+            None => return Ok(String::new()),
         };
         let string_value: String = match self.parse_plist_string_content(token_pair.into_inner()) {
             Ok(element) => element,
-- 
2.43.0


From 37367d3342d55f0407d3a9470e8356b3ecbde6ab Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:08:49 +0000
Subject: [PATCH 139/148] fix: references and character data sections in XML
 plist values cannot be read

---
 keramics-formats/src/plist/xmlplist.rs | 77 +++++++++++++++++++++++---
 1 file changed, 69 insertions(+), 8 deletions(-)

diff --git a/keramics-formats/src/plist/xmlplist.rs b/keramics-formats/src/plist/xmlplist.rs
index d488485..cf6320e 100644
--- a/keramics-formats/src/plist/xmlplist.rs
+++ b/keramics-formats/src/plist/xmlplist.rs
@@ -91,6 +91,33 @@ impl XmlPlist {
         Ok(())
     }
 
+    /// Retrieves the character a character or predefined entity reference refers to.
+    fn get_referenced_character(reference: &str) -> Option<char> {
+        match reference {
+            "&amp;" => return Some('&'),
+            "&apos;" => return Some('\''),
+            "&gt;" => return Some('>'),
+            "&lt;" => return Some('<'),
+            "&quot;" => return Some('"'),
+            _ => {}
+        }
+        let number: &str = reference.strip_prefix("&#")?.strip_suffix(';')?;
+
+        let code_point: u32 = match number.strip_prefix('x') {
+            Some(number) => u32::from_str_radix(number, 16).ok()?,
+            None => u32::from_str_radix(number, 10).ok()?,
+        };
+        match code_point {
+            0x09 | 0x0a | 0x0d | 0x20..=0xfffd | 0x10000.. => char::from_u32(code_point),
+            _ => None,
+        }
+    }
+
+    /// Normalizes the line ends of character data.
+    fn normalize_line_ends(string: &str) -> String {
+        string.replace("\r\n", "\n").replace('\r', "\n")
+    }
+
     /// Parses a XML plist array content.
     fn parse_plist_array_content(
         &self,
@@ -272,9 +299,14 @@ impl XmlPlist {
             // An element without content.
             None => return Ok(PlistObject::Data(Vec::new())),
         };
-        let encoded_data: &[u8] = token_pair.as_str().as_bytes();
-
-        let mut base64_stream: Base64Stream = Base64Stream::new(encoded_data, 0, true);
+        let encoded_data: String = match self.parse_plist_string_content(token_pair.into_inner()) {
+            Ok(string) => string,
+            Err(mut error) => {
+                keramics_core::error_trace_add_frame!(error, "Unable to parse plist data");
+                return Err(error);
+            }
+        };
+        let mut base64_stream: Base64Stream = Base64Stream::new(encoded_data.as_bytes(), 0, true);
 
         let mut data: Vec<u8> = Vec::new();
 
@@ -351,7 +383,14 @@ impl XmlPlist {
                 ));
             }
         };
-        let floating_point_value: f64 = match f64::from_str(token_pair.as_str()) {
+        let string: String = match self.parse_plist_string_content(token_pair.into_inner()) {
+            Ok(string) => string,
+            Err(mut error) => {
+                keramics_core::error_trace_add_frame!(error, "Unable to parse plist floating-point");
+                return Err(error);
+            }
+        };
+        let floating_point_value: f64 = match f64::from_str(string.as_str()) {
             Ok(floating_point_value) => floating_point_value,
             Err(error) => {
                 return Err(keramics_core::error_trace_new_with_error!(
@@ -386,7 +425,14 @@ impl XmlPlist {
                 return Err(keramics_core::error_trace_new!("Missing integer element"));
             }
         };
-        let integer_value: i64 = match i64::from_str_radix(token_pair.as_str(), 10) {
+        let string: String = match self.parse_plist_string_content(token_pair.into_inner()) {
+            Ok(string) => string,
+            Err(mut error) => {
+                keramics_core::error_trace_add_frame!(error, "Unable to parse plist integer");
+                return Err(error);
+            }
+        };
+        let integer_value: i64 = match i64::from_str_radix(string.as_str(), 10) {
             Ok(integer_value) => integer_value,
             Err(error) => {
                 return Err(keramics_core::error_trace_new_with_error!(
@@ -581,14 +627,29 @@ impl XmlPlist {
         &self,
         mut inner_pairs: Pairs<Rule>,
     ) -> Result<String, ErrorTrace> {
-        let mut string_parts: Vec<&str> = Vec::new();
+        let mut string: String = String::new();
 
         while let Some(token_pair) = inner_pairs.next() {
             let rule: Rule = token_pair.as_rule();
             match rule {
                 Rule::character_data => {
-                    string_parts.push(token_pair.as_str());
+                    string.push_str(&Self::normalize_line_ends(token_pair.as_str()));
                 }
+                Rule::cdata_section => {
+                    for cdata_pair in token_pair.into_inner() {
+                        string.push_str(&Self::normalize_line_ends(cdata_pair.as_str()));
+                    }
+                }
+                Rule::comment | Rule::processing_instructions => {}
+                Rule::reference => match Self::get_referenced_character(token_pair.as_str()) {
+                    Some(character) => string.push(character),
+                    None => {
+                        return Err(keramics_core::error_trace_new!(format!(
+                            "Unsupported reference: {}",
+                            token_pair.as_str()
+                        )));
+                    }
+                },
                 _ => {
                     return Err(keramics_core::error_trace_new!(format!(
                         "Unsupported plist string content rule: {:?}",
@@ -597,7 +658,7 @@ impl XmlPlist {
                 }
             };
         }
-        Ok(string_parts.join(""))
+        Ok(string)
     }
 
     /// Parses a XML plist string element.
-- 
2.43.0


From 46d929f2db34e93efb4bede09b84bfaea90fc0ca Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:08:49 +0000
Subject: [PATCH 140/148] fix: XML plists with comments or processing
 instructions cannot be read

---
 keramics-formats/src/plist/xmlplist.pest | 2 +-
 keramics-formats/src/plist/xmlplist.rs   | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/keramics-formats/src/plist/xmlplist.pest b/keramics-formats/src/plist/xmlplist.pest
index e5ec32f..bcb7dc8 100644
--- a/keramics-formats/src/plist/xmlplist.pest
+++ b/keramics-formats/src/plist/xmlplist.pest
@@ -430,7 +430,7 @@ plist_object_element = {
 }
 
 plist_key_and_object_element_pair = {
-	plist_key_element ~ character_data? ~ plist_object_element
+	plist_key_element ~ character_data? ~ ((processing_instructions | comment) ~ character_data?)* ~ plist_object_element
 }
 
 plist_boolean_false_element = {
diff --git a/keramics-formats/src/plist/xmlplist.rs b/keramics-formats/src/plist/xmlplist.rs
index cf6320e..506cc65 100644
--- a/keramics-formats/src/plist/xmlplist.rs
+++ b/keramics-formats/src/plist/xmlplist.rs
@@ -128,7 +128,7 @@ impl XmlPlist {
         while let Some(token_pair) = inner_pairs.next() {
             let rule: Rule = token_pair.as_rule();
             match rule {
-                Rule::character_data => {}
+                Rule::character_data | Rule::comment | Rule::processing_instructions => {}
                 Rule::plist_object_element => {
                     let object: PlistObject =
                         match self.parse_plist_object_element(token_pair.into_inner()) {
@@ -196,7 +196,7 @@ impl XmlPlist {
         while let Some(token_pair) = inner_pairs.next() {
             let rule: Rule = token_pair.as_rule();
             match rule {
-                Rule::character_data => {}
+                Rule::character_data | Rule::comment | Rule::processing_instructions => {}
                 Rule::plist_key_and_object_element_pair => {
                     let (key, object): (String, PlistObject) = match self
                         .parse_plist_key_and_object_element_pair(token_pair.into_inner())
@@ -264,7 +264,7 @@ impl XmlPlist {
         while let Some(token_pair) = inner_pairs.next() {
             let rule: Rule = token_pair.as_rule();
             match rule {
-                Rule::character_data => {}
+                Rule::character_data | Rule::comment | Rule::processing_instructions => {}
                 Rule::plist_object_element => {
                     object = match self.parse_plist_object_element(token_pair.into_inner()) {
                         Ok(element) => element,
@@ -477,7 +477,7 @@ impl XmlPlist {
         while let Some(token_pair) = inner_pairs.next() {
             let rule: Rule = token_pair.as_rule();
             match rule {
-                Rule::character_data => {}
+                Rule::character_data | Rule::comment | Rule::processing_instructions => {}
                 Rule::plist_object_element => {
                     object = match self.parse_plist_object_element(token_pair.into_inner()) {
                         Ok(element) => element,
-- 
2.43.0


From 9e860ee075eac48e070893f81cc902fab60a814d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:08:49 +0000
Subject: [PATCH 141/148] fix: XML plist without root object leaves that of the
 plist parsed before

---
 keramics-formats/src/plist/xmlplist.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/keramics-formats/src/plist/xmlplist.rs b/keramics-formats/src/plist/xmlplist.rs
index 506cc65..544e547 100644
--- a/keramics-formats/src/plist/xmlplist.rs
+++ b/keramics-formats/src/plist/xmlplist.rs
@@ -85,9 +85,8 @@ impl XmlPlist {
                 }
             }
         }
-        if root_object != PlistObject::None {
-            self.root_object = root_object;
-        }
+        self.root_object = root_object;
+
         Ok(())
     }
 
-- 
2.43.0


From 1e52c26ea35bcb51784dfa5dbcc4982bfa08eb28 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:09:17 +0000
Subject: [PATCH 142/148] fix: XML plists with a date panic

---
 keramics-formats/src/plist/xmlplist.rs | 108 ++++++++++++++++++++++++-
 1 file changed, 105 insertions(+), 3 deletions(-)

diff --git a/keramics-formats/src/plist/xmlplist.rs b/keramics-formats/src/plist/xmlplist.rs
index 544e547..1267529 100644
--- a/keramics-formats/src/plist/xmlplist.rs
+++ b/keramics-formats/src/plist/xmlplist.rs
@@ -112,6 +112,60 @@ impl XmlPlist {
         }
     }
 
+    /// Retrieves the number of seconds since 2001-01-01 00:00:00 UTC of a date and time formatted
+    /// as: YYYY '-' MM '-' DD 'T' HH ':' MM ':' SS 'Z'
+    fn get_timestamp(string: &[u8]) -> Option<i64> {
+        if string.len() != 20 {
+            return None;
+        }
+        let separators: [(usize, u8); 6] = [
+            (4, b'-'),
+            (7, b'-'),
+            (10, b'T'),
+            (13, b':'),
+            (16, b':'),
+            (19, b'Z'),
+        ];
+        let mut values: [i64; 6] = [0; 6];
+        let mut start_index: usize = 0;
+
+        for (value, (end_index, separator)) in values.iter_mut().zip(separators) {
+            if string[end_index] != separator {
+                return None;
+            }
+            for byte_value in &string[start_index..end_index] {
+                if !byte_value.is_ascii_digit() {
+                    return None;
+                }
+                *value = *value * 10 + (byte_value - b'0') as i64;
+            }
+            start_index = end_index + 1;
+        }
+        let [year, month, day, hours, minutes, seconds] = values;
+
+        let is_leap_year: bool = (year % 4 == 0 && year % 100 != 0) || year % 400 == 0;
+        let days_per_month: i64 = match month {
+            1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
+            4 | 6 | 9 | 11 => 30,
+            2 if is_leap_year => 29,
+            2 => 28,
+            _ => return None,
+        };
+        if day < 1 || day > days_per_month || hours > 23 || minutes > 59 || seconds > 60 {
+            return None;
+        }
+        // Count years from March so that the leap day comes last.
+        let years: i64 = if month < 3 { year - 1 } else { year };
+        let day_of_year: i64 = (153 * ((month + 9) % 12) + 2) / 5 + day - 1;
+
+        let days: i64 = 365 * years + years.div_euclid(4) - years.div_euclid(100)
+            + years.div_euclid(400)
+            + day_of_year
+            - 730791;
+
+        Some(days * 86400 + hours * 3600 + minutes * 60 + seconds)
+    }
+
     /// Normalizes the line ends of character data.
     fn normalize_line_ends(string: &str) -> String {
         string.replace("\r\n", "\n").replace('\r', "\n")
@@ -185,6 +239,46 @@ impl XmlPlist {
         Ok(PlistObject::Array(array_values))
     }
 
+    /// Parses a XML plist date element.
+    fn parse_plist_date_element(
+        &self,
+        mut inner_pairs: Pairs<Rule>,
+    ) -> Result<PlistObject, ErrorTrace> {
+        inner_pairs.next();
+
+        let token_pair: Pair<Rule> = match inner_pairs.next() {
+            Some(token_pair) => token_pair,
+            None => {
+                return Err(keramics_core::error_trace_new!("Missing date element"));
+            }
+        };
+        let string: String = match self.parse_plist_string_content(token_pair.into_inner()) {
+            Ok(string) => string,
+            Err(mut error) => {
+                keramics_core::error_trace_add_frame!(error, "Unable to parse plist date");
+                return Err(error);
+            }
+        };
+        let timestamp: i64 = match Self::get_timestamp(string.as_bytes()) {
+            Some(timestamp) => timestamp,
+            None => {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Unsupported date value: {}",
+                    string
+                )));
+            }
+        };
+        inner_pairs.next();
+
+        match inner_pairs.next() {
+            Some(_) => {
+                return Err(keramics_core::error_trace_new!("Unsupported date element"));
+            }
+            None => {}
+        };
+        Ok(PlistObject::DateTime(timestamp as f64))
+    }
+
     /// Parses a XML plist dict content.
     fn parse_plist_dict_content(
         &self,
@@ -385,7 +479,10 @@ impl XmlPlist {
         let string: String = match self.parse_plist_string_content(token_pair.into_inner()) {
             Ok(string) => string,
             Err(mut error) => {
-                keramics_core::error_trace_add_frame!(error, "Unable to parse plist floating-point");
+                keramics_core::error_trace_add_frame!(
+                    error,
+                    "Unable to parse plist floating-point"
+                );
                 return Err(error);
             }
         };
@@ -553,8 +650,13 @@ impl XmlPlist {
                 }
             }
             Rule::plist_date_element => {
-                // TODO: YYYY '-' MM '-' DD 'T' HH ':' MM ':' SS 'Z'
-                todo!();
+                match self.parse_plist_date_element(token_pair.into_inner()) {
+                    Ok(element) => element,
+                    Err(mut error) => {
+                        keramics_core::error_trace_add_frame!(error, "Unable to parse date object");
+                        return Err(error);
+                    }
+                }
             }
             Rule::plist_dict_element => {
                 match self.parse_plist_dict_element(token_pair.into_inner()) {
-- 
2.43.0


From 1b3b84c6a3fc4caf76b7aefbfa1d75e781bbc114 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:09:17 +0000
Subject: [PATCH 143/148] fix: XML plists with the earlier public identifier
 cannot be read

---
 keramics-formats/src/plist/xmlplist.pest | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/keramics-formats/src/plist/xmlplist.pest b/keramics-formats/src/plist/xmlplist.pest
index bcb7dc8..1c0df37 100644
--- a/keramics-formats/src/plist/xmlplist.pest
+++ b/keramics-formats/src/plist/xmlplist.pest
@@ -393,7 +393,9 @@ plist_external_identifier = {
 
 plist_public_identifier_literal = {
     "\"-//Apple//DTD PLIST 1.0//EN\"" |
-    "'-//Apple//DTD PLIST 1.0//EN'"
+    "'-//Apple//DTD PLIST 1.0//EN'" |
+    "\"-//Apple Computer//DTD PLIST 1.0//EN\"" |
+    "'-//Apple Computer//DTD PLIST 1.0//EN'"
 }
 
 plist_system_literal = {
-- 
2.43.0


From a24be65af2683a1ff22deb1219f0d63f2d0d5599 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:09:17 +0000
Subject: [PATCH 144/148] fix: XML plists with processing instructions whose
 target starts with xml cannot be read

---
 keramics-formats/src/plist/xmlplist.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keramics-formats/src/plist/xmlplist.pest b/keramics-formats/src/plist/xmlplist.pest
index 1c0df37..9da66ae 100644
--- a/keramics-formats/src/plist/xmlplist.pest
+++ b/keramics-formats/src/plist/xmlplist.pest
@@ -155,7 +155,7 @@ processing_instructions_data = {
 }
 
 processing_instructions_target = {
-    !( ("X" | "x") ~ ("M" | "m") ~ ("L" | "l") ) ~ name
+    !( ("X" | "x") ~ ("M" | "m") ~ ("L" | "l") ~ !name_character ) ~ name
 }
 
 cdata = {
-- 
2.43.0


From 4939900b70837969179435a955e7a41d28d129b2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:09:17 +0000
Subject: [PATCH 145/148] fix: XML plists with more than one root object are
 read as the last

---
 keramics-formats/src/plist/xmlplist.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/keramics-formats/src/plist/xmlplist.rs b/keramics-formats/src/plist/xmlplist.rs
index 1267529..bd84c56 100644
--- a/keramics-formats/src/plist/xmlplist.rs
+++ b/keramics-formats/src/plist/xmlplist.rs
@@ -359,6 +359,11 @@ impl XmlPlist {
             match rule {
                 Rule::character_data | Rule::comment | Rule::processing_instructions => {}
                 Rule::plist_object_element => {
+                    if object != PlistObject::None {
+                        return Err(keramics_core::error_trace_new!(
+                            "Unsupported plist content multiple objects"
+                        ));
+                    }
                     object = match self.parse_plist_object_element(token_pair.into_inner()) {
                         Ok(element) => element,
                         Err(mut error) => {
-- 
2.43.0


From 095102f189fc9a4810b1f08dd2b394d656530fb7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:46:39 +0000
Subject: [PATCH 146/148] fix: keramicsinfo panicked on an EWF image of memory

---
 keramics-tools/src/info/ewf.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/keramics-tools/src/info/ewf.rs b/keramics-tools/src/info/ewf.rs
index 278321e..cbaf622 100644
--- a/keramics-tools/src/info/ewf.rs
+++ b/keramics-tools/src/info/ewf.rs
@@ -82,6 +82,7 @@ impl EwfInfo {
         let media_types = HashMap::<EwfMediaType, &'static str>::from([
             (EwfMediaType::FixedDisk, "fixed disk"),
             (EwfMediaType::LogicalEvidence, "logical evidence"),
+            (EwfMediaType::Memory, "memory (RAM)"),
             (EwfMediaType::OpticalDisk, "optical disk (CD/DVD/BD)"),
             (EwfMediaType::RemoveableDisk, "removable disk"),
             (EwfMediaType::Unknown, "Unknown"),
-- 
2.43.0


From e42aa5572a2329953da2e865be09e349b51a4944 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:46:39 +0000
Subject: [PATCH 147/148] fix: the NTFS hierarchy of keramicsinfo left out
 directories and files without data

---
 keramics-tools/src/info/ntfs.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/keramics-tools/src/info/ntfs.rs b/keramics-tools/src/info/ntfs.rs
index 1f3caa3..e02fded 100644
--- a/keramics-tools/src/info/ntfs.rs
+++ b/keramics-tools/src/info/ntfs.rs
@@ -785,6 +785,8 @@ impl NtfsInfo {
             path_components.push(name_string);
             format!("/{}", path_components.join("/"))
         };
+        println!("{}", path);
+
         let number_of_data_forks: usize = match file_entry.get_number_of_data_forks() {
             Ok(number_of_data_forks) => number_of_data_forks,
             Err(mut error) => {
@@ -808,7 +810,7 @@ impl NtfsInfo {
             };
             match data_fork.get_name() {
                 Some(name) => println!("{}:{}", path, name.to_string()),
-                None => println!("{}", path),
+                None => {}
             };
         }
         // TODO: print index names?
-- 
2.43.0


From 78585e3a0ece1516490b2e65900c52d331166fec Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:48:58 +0000
Subject: [PATCH 148/148] fix: sizes of an exbibyte or more could not be
 formatted

---
 keramics-tools/src/formatters.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/keramics-tools/src/formatters.rs b/keramics-tools/src/formatters.rs
index f6d4124..275bb89 100644
--- a/keramics-tools/src/formatters.rs
+++ b/keramics-tools/src/formatters.rs
@@ -16,12 +16,10 @@ const UNITS: [&str; 9] = ["", "K", "M", "G", "T", "P", "E", "Z", "Y"];
 /// Formats an integer as bytes size.
 pub fn format_as_bytesize(value: u64, base: u64) -> String {
     let mut factor: u64 = 1;
-    let mut next_factor: u64 = base;
     let mut units_index: usize = 0;
 
-    while next_factor <= value {
-        factor = next_factor;
-        next_factor *= base;
+    while value / factor >= base {
+        factor *= base;
         units_index += 1;
     }
     if units_index > 0 {
-- 
2.43.0

