From 92de3935f398dd5a75ec297cf7c67e691e4ef2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:39 +0000
Subject: [PATCH 01/48] fix: read of fake data stream across the end of the
 initialised data

The second part of a read crossing the end of the initialised data was copied
from the data again instead of being zero filled.
---
 keramics-core/src/fake_data_stream.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/keramics-core/src/fake_data_stream.rs b/keramics-core/src/fake_data_stream.rs
index 3d11ec6..edb72ea 100644
--- a/keramics-core/src/fake_data_stream.rs
+++ b/keramics-core/src/fake_data_stream.rs
@@ -67,8 +67,10 @@ impl DataStream for FakeDataStream {
         while buf_offset < read_size {
             let read_remainder_size: usize = read_size - buf_offset;
 
-            let read_count: usize = if self.current_offset < self.data_size as u64 {
-                let data_offset: usize = self.current_offset as usize;
+            let offset: u64 = self.current_offset + buf_offset as u64;
+
+            let read_count: usize = if offset < self.data_size as u64 {
+                let data_offset: usize = offset as usize;
 
                 let data_remainder_size: usize =
                     min(read_remainder_size, self.data_size - data_offset);
-- 
2.43.0


From f24d1e0ca25e74d0cdef3842e098f7f80818c82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:39 +0000
Subject: [PATCH 02/48] fix: formatting of partial hexdump lines and of arrays

A hexdump of which the last line contains a single byte lacked the character
column. An empty array panicked and arrays of more than 16 values that are not
a multiple of 16 repeated values.
---
 keramics-core/src/formatters.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/keramics-core/src/formatters.rs b/keramics-core/src/formatters.rs
index 44ca025..12fcf97 100644
--- a/keramics-core/src/formatters.rs
+++ b/keramics-core/src/formatters.rs
@@ -15,6 +15,10 @@
 pub fn debug_format_array(array: &Vec<String>) -> String {
     // TODO: pass string for indentation?
     let number_of_values: usize = array.len();
+
+    if number_of_values == 0 {
+        return String::from("[]");
+    }
     let string_value: &String = &array[0];
     let mut use_short_hand: bool = true;
 
@@ -29,11 +33,9 @@ pub fn debug_format_array(array: &Vec<String>) -> String {
     }
     if number_of_values > 16 {
         let mut string_parts: Vec<String> = Vec::new();
-        let last_value_index: usize = number_of_values - 16;
-        for value_index in (0..last_value_index).step_by(16) {
-            string_parts.push(array[value_index..value_index + 16].join(", "));
+        for values in array.chunks(16) {
+            string_parts.push(values.join(", "));
         }
-        string_parts.push(array[last_value_index..].join(", "));
 
         return format!("[\n        {}\n    ]", string_parts.join(",\n        "));
     }
@@ -115,7 +117,7 @@ pub fn format_as_hexdump(data: &[u8], group: bool) -> String {
         }
         data_offset += 1;
     }
-    if data_size > 0 && character_index > 0 {
+    if groups_data_size < data_size {
         character_index += 1;
 
         for index in character_index..16 {
-- 
2.43.0


From f28d109348789eefffa28519912f541688d4cdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:15 +0000
Subject: [PATCH 03/48] fix: date values of timestamps before the epoch and
 after the year 9999

Timestamps before the epoch were formatted with a wrong day of month, such as
1902-01-00, or a day early. Timestamps after the year 9999, including valid
FILETIME values, caused an out of bounds access or an overflow of the year.
---
 keramics-datetime/src/filetime.rs |  2 +-
 keramics-datetime/src/posix.rs    |  4 +-
 keramics-datetime/src/util.rs     | 65 ++++++++++---------------------
 3 files changed, 23 insertions(+), 48 deletions(-)

diff --git a/keramics-datetime/src/filetime.rs b/keramics-datetime/src/filetime.rs
index 59bf610..df389b6 100644
--- a/keramics-datetime/src/filetime.rs
+++ b/keramics-datetime/src/filetime.rs
@@ -57,7 +57,7 @@ impl Filetime {
         let number_of_seconds: u64 = self.timestamp / 10000000;
         let (days, hours, minutes, seconds): (i64, u8, u8, u8) =
             get_time_values(number_of_seconds as i64);
-        let (year, month, day_of_month): (i16, u8, u8) = get_date_values(days, &FILETIME_EPOCH);
+        let (year, month, day_of_month): (i64, u8, u8) = get_date_values(days, &FILETIME_EPOCH);
         format!(
             "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:07}",
             year, month, day_of_month, hours, minutes, seconds, fraction
diff --git a/keramics-datetime/src/posix.rs b/keramics-datetime/src/posix.rs
index a32f7cc..3d1e8c0 100644
--- a/keramics-datetime/src/posix.rs
+++ b/keramics-datetime/src/posix.rs
@@ -60,7 +60,7 @@ impl PosixTime32 {
     pub fn to_iso8601_string(&self) -> String {
         let (days, hours, minutes, seconds): (i64, u8, u8, u8) =
             get_time_values(self.timestamp as i64);
-        let (year, month, day_of_month): (i16, u8, u8) = get_date_values(days, &POSIX_EPOCH);
+        let (year, month, day_of_month): (i64, u8, u8) = get_date_values(days, &POSIX_EPOCH);
         format!(
             "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}",
             year, month, day_of_month, hours, minutes, seconds
@@ -103,7 +103,7 @@ impl PosixTime64Ns {
     /// Retrieves an ISO 8601 string representation of the timestamp.
     pub fn to_iso8601_string(&self) -> String {
         let (days, hours, minutes, seconds): (i64, u8, u8, u8) = get_time_values(self.timestamp);
-        let (year, month, day_of_month): (i16, u8, u8) = get_date_values(days, &POSIX_EPOCH);
+        let (year, month, day_of_month): (i64, u8, u8) = get_date_values(days, &POSIX_EPOCH);
         format!(
             "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:09}",
             year, month, day_of_month, hours, minutes, seconds, self.fraction
diff --git a/keramics-datetime/src/util.rs b/keramics-datetime/src/util.rs
index 7aeb6a5..37e8611 100644
--- a/keramics-datetime/src/util.rs
+++ b/keramics-datetime/src/util.rs
@@ -100,34 +100,27 @@ fn get_days_in_century(year: i16) -> i32 {
     }
 }
 
+/// Number of days in 400 years.
+const DAYS_IN_400_YEARS: i64 = 146097;
+
 /// Retrieves date values.
-pub fn get_date_values(mut number_of_days: i64, epoch: &Epoch) -> (i16, u8, u8) {
-    let before_epoch: bool = number_of_days < 0;
+pub fn get_date_values(mut number_of_days: i64, epoch: &Epoch) -> (i64, u8, u8) {
+    // Dates before the epoch or more than 400 years after it are determined relative to
+    // the 400 years following the epoch, since the calendar repeats every 400 years.
+    let number_of_cycles: i64 = number_of_days.div_euclid(DAYS_IN_400_YEARS);
+    number_of_days = number_of_days.rem_euclid(DAYS_IN_400_YEARS);
 
     let mut year: i16 = epoch.year;
     let mut month: u8 = epoch.month;
     number_of_days += epoch.day_of_month as i64;
 
-    if before_epoch {
-        month -= 1;
-
-        if month <= 0 {
-            month = 12;
-            year -= 1;
-        }
-        number_of_days *= -1;
-    }
     // Align with the start of the year.
     while month > 1 {
         let days_in_month: i64 = get_days_in_month(year, month) as i64;
         if number_of_days < days_in_month {
             break;
         }
-        if before_epoch {
-            month -= 1;
-        } else {
-            month += 1;
-        }
+        month += 1;
         if month > 12 {
             month = 1;
             year += 1;
@@ -141,46 +134,27 @@ pub fn get_date_values(mut number_of_days: i64, epoch: &Epoch) -> (i16, u8, u8)
         if number_of_days < days_in_year {
             break;
         }
-        if before_epoch {
-            year -= 1;
-        } else {
-            year += 1;
-        }
+        year += 1;
         number_of_days -= days_in_year;
     }
     let mut days_in_century: i64 = get_days_in_century(year) as i64;
     while number_of_days > days_in_century {
-        if before_epoch {
-            year -= 100;
-        } else {
-            year += 100;
-        }
+        year += 100;
         number_of_days -= days_in_century;
 
         days_in_century = get_days_in_century(year) as i64;
     }
     let mut days_in_year: i64 = get_days_in_year(year) as i64;
     while number_of_days > days_in_year {
-        if before_epoch {
-            year -= 1;
-        } else {
-            year += 1;
-        }
+        year += 1;
         number_of_days -= days_in_year;
 
         days_in_year = get_days_in_year(year) as i64;
     }
     let mut days_in_month: i64 = get_days_in_month(year, month) as i64;
     while number_of_days > days_in_month {
-        if before_epoch {
-            month -= 1;
-        } else {
-            month += 1;
-        }
-        if month <= 0 {
-            month = 12;
-            year -= 1;
-        } else if month > 12 {
+        month += 1;
+        if month > 12 {
             month = 1;
             year += 1;
         }
@@ -188,15 +162,16 @@ pub fn get_date_values(mut number_of_days: i64, epoch: &Epoch) -> (i16, u8, u8)
 
         days_in_month = get_days_in_month(year, month) as i64;
     }
-    if before_epoch {
-        let days_in_month: i64 = get_days_in_month(year, month) as i64;
-        number_of_days = days_in_month - number_of_days;
-    } else if number_of_days == 0 {
+    if number_of_days == 0 {
         number_of_days = 31;
         month = 12;
         year -= 1;
     }
-    (year, month, number_of_days as u8)
+    (
+        year as i64 + number_of_cycles * 400,
+        month,
+        number_of_days as u8,
+    )
 }
 
 /// Retrieves time values.
-- 
2.43.0


From d336381f633745eda66d3adb06aeaa2e32a6eb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:28 +0000
Subject: [PATCH 04/48] fix: UTF-8 decoding of ill-formed sequences, encoders
 that stay on an error and ISO-8859-2 and 4 substitutes

The UTF-8 decoder accepted sequences with lead byte 0xc0 or 0xc1 and code
points larger than U+10FFFF. It, and the ASCII and ISO-8859-1 encoders, returned
the same error endlessly. The ISO-8859-2 and ISO-8859-4 encoders encoded
unsupported code points as 0x1a.
---
 keramics-encodings/src/ascii.rs     |  4 ++--
 keramics-encodings/src/iso8859_1.rs |  4 ++--
 keramics-encodings/src/iso8859_2.rs |  6 +++---
 keramics-encodings/src/iso8859_4.rs |  2 +-
 keramics-encodings/src/utf8.rs      | 13 ++++++-------
 5 files changed, 14 insertions(+), 15 deletions(-)

diff --git a/keramics-encodings/src/ascii.rs b/keramics-encodings/src/ascii.rs
index ebfbf97..515f167 100644
--- a/keramics-encodings/src/ascii.rs
+++ b/keramics-encodings/src/ascii.rs
@@ -78,9 +78,9 @@ impl<'a> Iterator for EncoderAscii<'a> {
     fn next(&mut self) -> Option<Self::Item> {
         match self.code_points.get(self.code_point_index) {
             Some(code_point) => {
-                if code_point < &0x0080 {
-                    self.code_point_index += 1;
+                self.code_point_index += 1;
 
+                if code_point < &0x0080 {
                     Some(Ok(vec![*code_point as u8]))
                 } else {
                     Some(Err(keramics_core::error_trace_new!(format!(
diff --git a/keramics-encodings/src/iso8859_1.rs b/keramics-encodings/src/iso8859_1.rs
index 7ce7497..c9cf61a 100644
--- a/keramics-encodings/src/iso8859_1.rs
+++ b/keramics-encodings/src/iso8859_1.rs
@@ -78,9 +78,9 @@ impl<'a> Iterator for EncoderIso8859_1<'a> {
     fn next(&mut self) -> Option<Self::Item> {
         match self.code_points.get(self.code_point_index) {
             Some(code_point) => {
-                if code_point < &0x0100 {
-                    self.code_point_index += 1;
+                self.code_point_index += 1;
 
+                if code_point < &0x0100 {
                     Some(Ok(vec![*code_point as u8]))
                 } else {
                     Some(Err(keramics_core::error_trace_new!(format!(
diff --git a/keramics-encodings/src/iso8859_2.rs b/keramics-encodings/src/iso8859_2.rs
index 620a5f4..05762b5 100644
--- a/keramics-encodings/src/iso8859_2.rs
+++ b/keramics-encodings/src/iso8859_2.rs
@@ -288,11 +288,11 @@ impl<'a> EncoderIso8859_2<'a> {
     const BASE_0X02D8: [Option<&'static [u8]>; 8] = [
         Some(&[0xa2]),
         Some(&[0xff]),
-        Some(&[0x1a]),
+        None,
         Some(&[0xb2]),
-        Some(&[0x1a]),
+        None,
         Some(&[0xbd]),
-        Some(&[0x1a]),
+        None,
         None,
     ];
 
diff --git a/keramics-encodings/src/iso8859_4.rs b/keramics-encodings/src/iso8859_4.rs
index f722fcd..5c1ce37 100644
--- a/keramics-encodings/src/iso8859_4.rs
+++ b/keramics-encodings/src/iso8859_4.rs
@@ -303,7 +303,7 @@ impl<'a> EncoderIso8859_4<'a> {
         None,
         Some(&[0xae]),
         Some(&[0xbe]),
-        Some(&[0x1a]),
+        None,
     ];
 
     /// Creates a new encoder.
diff --git a/keramics-encodings/src/utf8.rs b/keramics-encodings/src/utf8.rs
index eb715ab..6d590d1 100644
--- a/keramics-encodings/src/utf8.rs
+++ b/keramics-encodings/src/utf8.rs
@@ -47,11 +47,14 @@ impl<'a> Iterator for DecoderUtf8<'a> {
             Some(byte_value) => {
                 byte_index += 1;
 
+                // Ensure decoding continues after an invalid byte.
+                self.byte_index = byte_index;
+
                 *byte_value
             }
             None => return None,
         };
-        if (byte_value1 >= 0x80 && byte_value1 < 0xc0) || byte_value1 > 0xf4 {
+        if (byte_value1 >= 0x80 && byte_value1 < 0xc2) || byte_value1 > 0xf4 {
             return Some(Err(keramics_core::error_trace_new!(format!(
                 "Unable to decode UTF-8: 0x{:02x} as Unicode",
                 byte_value1
@@ -75,6 +78,7 @@ impl<'a> Iterator for DecoderUtf8<'a> {
                 0xe0 => byte_value < 0xa0 || byte_value > 0xbf,
                 0xed => byte_value < 0x80 || byte_value > 0x9f,
                 0xf0 => byte_value < 0x90 || byte_value > 0xbf,
+                0xf4 => byte_value < 0x80 || byte_value > 0x8f,
                 _ => byte_value < 0x80 || byte_value > 0xbf,
             };
             if is_valid {
@@ -101,12 +105,7 @@ impl<'a> Iterator for DecoderUtf8<'a> {
                     ))));
                 }
             };
-            let is_valid: bool = match byte_value2 {
-                0xe0 => byte_value < 0xa0 || byte_value > 0xbf,
-                0xed => byte_value < 0x80 || byte_value > 0x9f,
-                _ => byte_value < 0x80 || byte_value > 0xbf,
-            };
-            if is_valid {
+            if byte_value < 0x80 || byte_value > 0xbf {
                 return Some(Err(keramics_core::error_trace_new!(format!(
                     "Unable to decode UTF-8: 0x{:02x}, 0x{:02x}, 0x{:02x} as Unicode",
                     byte_value1, byte_value2, byte_value
-- 
2.43.0


From c01ecbb5c3097c039012889fe9581c9e4fe36a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:41 +0000
Subject: [PATCH 05/48] fix: Base64 decoding into data that is too small

Base64Context::decode() panicked instead of returning an error.
---
 keramics-encodings/src/base64.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/keramics-encodings/src/base64.rs b/keramics-encodings/src/base64.rs
index b9601da..0aa4335 100644
--- a/keramics-encodings/src/base64.rs
+++ b/keramics-encodings/src/base64.rs
@@ -130,7 +130,14 @@ impl Base64Context {
         let mut data_offset: usize = 0;
 
         while let Some(byte_value) = base64_stream.get_value()? {
-            data[data_offset] = byte_value;
+            match data.get_mut(data_offset) {
+                Some(value) => *value = byte_value,
+                None => {
+                    return Err(keramics_core::error_trace_new!(
+                        "Invalid data value too small"
+                    ));
+                }
+            }
             data_offset += 1;
         }
         self.data_size = data_offset;
-- 
2.43.0


From bdace5462a73197bf11661dabd4384465bf66bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:36 +0000
Subject: [PATCH 06/48] fix: strings with undecodable or incomplete elements
 and parsing of malformed UUID strings

ByteString::to_string() and Utf16String::to_string() panicked on a string that
cannot be decoded, reading a 16-bit string from an odd number of bytes panicked,
and Uuid::from_string() accepted signs and panicked on multi-byte characters.
---
 keramics-types/src/byte_string.rs  | 2 +-
 keramics-types/src/ucs2_string.rs  | 6 +++---
 keramics-types/src/utf16_string.rs | 6 +++---
 keramics-types/src/uuid.rs         | 6 ++++++
 4 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/keramics-types/src/byte_string.rs b/keramics-types/src/byte_string.rs
index eea9ce5..6bb8f85 100644
--- a/keramics-types/src/byte_string.rs
+++ b/keramics-types/src/byte_string.rs
@@ -139,7 +139,7 @@ impl ByteString {
                     };
                     string_parts.push(string);
                 }
-                Err(error) => todo!(),
+                Err(_) => string_parts.push(char::REPLACEMENT_CHARACTER.to_string()),
             }
         }
         string_parts.join("")
diff --git a/keramics-types/src/ucs2_string.rs b/keramics-types/src/ucs2_string.rs
index cab4401..d32e075 100644
--- a/keramics-types/src/ucs2_string.rs
+++ b/keramics-types/src/ucs2_string.rs
@@ -50,7 +50,7 @@ impl Ucs2String {
         let data_size: usize = data.len();
         let mut elements: Vec<u16> = Vec::new();
 
-        for data_offset in (0..data_size).step_by(2) {
+        for data_offset in (0..data_size.saturating_sub(1)).step_by(2) {
             let value_16bit: u16 = bytes_to_u16_be!(data, data_offset);
             if value_16bit == 0 {
                 break;
@@ -65,7 +65,7 @@ impl Ucs2String {
         let data_size: usize = data.len();
         let mut elements: Vec<u16> = Vec::new();
 
-        for data_offset in (0..data_size).step_by(2) {
+        for data_offset in (0..data_size.saturating_sub(1)).step_by(2) {
             let value_16bit: u16 = bytes_to_u16_le!(data, data_offset);
             if value_16bit == 0 {
                 break;
@@ -91,7 +91,7 @@ impl Ucs2String {
     pub fn read_data_le(&mut self, data: &[u8]) {
         let data_size: usize = data.len();
 
-        for data_offset in (0..data_size).step_by(2) {
+        for data_offset in (0..data_size.saturating_sub(1)).step_by(2) {
             let value_16bit: u16 = bytes_to_u16_le!(data, data_offset);
             if value_16bit == 0 {
                 break;
diff --git a/keramics-types/src/utf16_string.rs b/keramics-types/src/utf16_string.rs
index 306b23b..9188447 100644
--- a/keramics-types/src/utf16_string.rs
+++ b/keramics-types/src/utf16_string.rs
@@ -33,7 +33,7 @@ impl Utf16String {
         let data_size: usize = data.len();
         let mut elements: Vec<u16> = Vec::new();
 
-        for data_offset in (0..data_size).step_by(2) {
+        for data_offset in (0..data_size.saturating_sub(1)).step_by(2) {
             let value_16bit: u16 = bytes_to_u16_be!(data, data_offset);
             if value_16bit == 0 {
                 break;
@@ -48,7 +48,7 @@ impl Utf16String {
         let data_size: usize = data.len();
         let mut elements: Vec<u16> = Vec::new();
 
-        for data_offset in (0..data_size).step_by(2) {
+        for data_offset in (0..data_size.saturating_sub(1)).step_by(2) {
             let value_16bit: u16 = bytes_to_u16_le!(data, data_offset);
             if value_16bit == 0 {
                 break;
@@ -60,7 +60,7 @@ impl Utf16String {
 
     /// Converts the UTF-16 string to a `String`.
     pub fn to_string(&self) -> String {
-        String::from_utf16(&self.elements).unwrap()
+        String::from_utf16_lossy(&self.elements)
     }
 }
 
diff --git a/keramics-types/src/uuid.rs b/keramics-types/src/uuid.rs
index 30601bc..faf1ad5 100644
--- a/keramics-types/src/uuid.rs
+++ b/keramics-types/src/uuid.rs
@@ -83,6 +83,12 @@ impl Uuid {
         if string_length != 36 {
             return Err(ParseError::new(format!("Unsupported string length")));
         }
+        if !string
+            .bytes()
+            .all(|byte_value| byte_value == b'-' || byte_value.is_ascii_hexdigit())
+        {
+            return Err(ParseError::new(format!("Unsupported string")));
+        }
         if &string[8..9] != "-"
             || &string[13..14] != "-"
             || &string[18..19] != "-"
-- 
2.43.0


From 577632169df0b4f5cbc8f6b534da53a26fb9b089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:35 +0000
Subject: [PATCH 07/48] fix: sigscan missed, misplaced or crashed on signatures
 for some sets, data and buffers

Signatures with equal patterns at different offsets were dropped from the
scan tree, sets with disjoint offsets or nested patterns could not be built,
unbound matches were reported at the offset of the buffer, and patterns in
later buffers or in data smaller than the footer range were looked up at
wrong offsets.
---
 keramics-sigscan/src/scan_context.rs    | 12 +++--
 keramics-sigscan/src/scan_tree.rs       | 63 ++++++++++++++++++++-----
 keramics-sigscan/src/signature.rs       | 23 ++++-----
 keramics-sigscan/src/signature_table.rs | 12 ++++-
 4 files changed, 78 insertions(+), 32 deletions(-)

diff --git a/keramics-sigscan/src/scan_context.rs b/keramics-sigscan/src/scan_context.rs
index b8ea4fb..f3af6a0 100644
--- a/keramics-sigscan/src/scan_context.rs
+++ b/keramics-sigscan/src/scan_context.rs
@@ -101,7 +101,7 @@ impl<'a> ScanContext<'a> {
                     let pattern_offset: u64 = match signature.pattern_type {
                         PatternType::BoundToEnd => self.data_size - signature.pattern_offset as u64,
                         PatternType::BoundToStart => signature.pattern_offset as u64,
-                        PatternType::Unbound => self.data_offset,
+                        PatternType::Unbound => self.data_offset + buffer_offset as u64,
                     };
                     self.results.insert(pattern_offset, Arc::clone(&signature));
 
@@ -110,8 +110,10 @@ impl<'a> ScanContext<'a> {
                 _ => {
                     let smallest_pattern_size: usize =
                         min(buffer_size, scan_tree.skip_table.smallest_pattern_size);
-                    let mut skip_value_offset: usize =
-                        min(buffer_offset + smallest_pattern_size - 1, buffer_end_offset);
+                    let mut skip_value_offset: usize = min(
+                        (buffer_offset + smallest_pattern_size).saturating_sub(1),
+                        buffer_end_offset,
+                    );
 
                     loop {
                         let byte_value: u8 = buffer[skip_value_offset];
@@ -122,11 +124,10 @@ impl<'a> ScanContext<'a> {
                                 _ => scan_tree.skip_table.smallest_pattern_size,
                             };
                         }
-                        skip_value_offset -= 1;
-
                         if skip_value_offset <= buffer_offset || skip_value != 0 {
                             break;
                         }
+                        skip_value_offset -= 1;
                     }
                 }
             };
@@ -134,6 +135,7 @@ impl<'a> ScanContext<'a> {
                 break;
             }
             buffer_offset += skip_value;
+            scan_tree_node = &scan_tree.root_node;
         }
     }
 
diff --git a/keramics-sigscan/src/scan_tree.rs b/keramics-sigscan/src/scan_tree.rs
index bebe11c..d4c0f0b 100644
--- a/keramics-sigscan/src/scan_tree.rs
+++ b/keramics-sigscan/src/scan_tree.rs
@@ -36,9 +36,15 @@ pub enum ScanObject {
 /// Scan tree node.
 #[derive(Debug)]
 pub(super) struct ScanTreeNode {
+    /// Pattern type.
+    pattern_type: PatternType,
+
     /// Pattern offset.
     pub pattern_offset: usize,
 
+    /// Largest pattern offset.
+    largest_pattern_offset: usize,
+
     /// Scan objects.
     pub scan_objects: HashMap<i16, ScanObject>,
 }
@@ -47,7 +53,9 @@ impl ScanTreeNode {
     /// Creates a new scan tree node.
     pub fn new() -> Self {
         Self {
+            pattern_type: PatternType::Unbound,
             pattern_offset: 0,
+            largest_pattern_offset: 0,
             scan_objects: HashMap::new(),
         }
     }
@@ -59,6 +67,23 @@ impl ScanTreeNode {
         offsets_to_ignore: &Vec<usize>,
         largest_pattern_offset: usize,
     ) -> Result<(), BuildError> {
+        self.pattern_type = signature_table.pattern_type.clone();
+        self.largest_pattern_offset = largest_pattern_offset;
+
+        if signature_table.byte_value_groups.is_empty() {
+            // No byte values remain to tell the signatures apart.
+            if let Some(signature) = signature_table
+                .signatures
+                .iter()
+                .max_by_key(|signature| signature.pattern_size)
+            {
+                self.scan_objects.insert(
+                    DEFAULT_SCAN_OBJECT,
+                    ScanObject::Signature(Arc::clone(signature)),
+                );
+                return Ok(());
+            }
+        }
         self.pattern_offset = match signature_table.get_most_significant_pattern_offset() {
             Some(pattern_offset) => pattern_offset,
             None => {
@@ -72,7 +97,11 @@ impl ScanTreeNode {
 
         let mut remaining_signatures: Vec<SignatureReference> = Vec::new();
         for signature in signature_table.signatures.iter() {
-            if !signatures_in_node.contains(signature) {
+            // Note that different signatures can have the same pattern.
+            if !signatures_in_node
+                .iter()
+                .any(|node_signature| Arc::ptr_eq(node_signature, signature))
+            {
                 remaining_signatures.push(Arc::clone(signature));
             }
         }
@@ -172,16 +201,23 @@ impl ScanTreeNode {
         }
         let mediator: MediatorReference = Mediator::current();
 
-        let scan_offset: usize = buffer_offset + self.pattern_offset;
-
+        // Note that the byte at the pattern offset can be stored outside of the buffer.
+        let scan_offset: Option<u64> = match self.pattern_type {
+            PatternType::BoundToEnd => (data_size + self.pattern_offset as u64)
+                .checked_sub(data_offset + self.largest_pattern_offset as u64),
+            PatternType::BoundToStart => (self.pattern_offset as u64).checked_sub(data_offset),
+            PatternType::Unbound => Some((buffer_offset + self.pattern_offset) as u64),
+        };
         let mut scan_object_key: i16 = DEFAULT_SCAN_OBJECT;
 
         // Note that if the pattern offset exceeds the (total) data size the scan continues with the default scan object.
         let mut scan_object: Option<&ScanObject> = None;
 
-        if scan_offset < buffer_size && (scan_offset as u64) < data_size - data_offset {
-            scan_object_key = buffer[scan_offset] as i16;
-            scan_object = self.scan_objects.get(&scan_object_key);
+        if let Some(offset) = scan_offset {
+            if offset < buffer_size as u64 && offset < data_size - data_offset {
+                scan_object_key = buffer[offset as usize] as i16;
+                scan_object = self.scan_objects.get(&scan_object_key);
+            }
         }
         if scan_object.is_none() {
             scan_object_key = DEFAULT_SCAN_OBJECT;
@@ -189,11 +225,16 @@ impl ScanTreeNode {
         }
         if mediator.debug_output {
             mediator.debug_print(format!("ScanTreeNode::scan_buffer {{\n"));
-            let pattern_offset: u64 = data_offset + scan_offset as u64;
-            mediator.debug_print(format!(
-                "    scanning at offset: {} (0x{:08x}) for scan object: ",
-                pattern_offset, pattern_offset
-            ));
+            match scan_offset {
+                Some(offset) => {
+                    let pattern_offset: u64 = data_offset + offset;
+                    mediator.debug_print(format!(
+                        "    scanning at offset: {} (0x{:08x}) for scan object: ",
+                        pattern_offset, pattern_offset
+                    ));
+                }
+                None => mediator.debug_print(format!("    scanning for scan object: ")),
+            };
             match scan_object {
                 Some(_) => {
                     if scan_object_key == DEFAULT_SCAN_OBJECT {
diff --git a/keramics-sigscan/src/signature.rs b/keramics-sigscan/src/signature.rs
index 061570d..751adcc 100644
--- a/keramics-sigscan/src/signature.rs
+++ b/keramics-sigscan/src/signature.rs
@@ -64,9 +64,12 @@ impl Signature {
         buffer_size: usize,
     ) -> bool {
         let pattern_offset: u64 = match self.pattern_type {
-            PatternType::BoundToEnd => data_size - self.pattern_offset as u64,
+            PatternType::BoundToEnd => match data_size.checked_sub(self.pattern_offset as u64) {
+                Some(pattern_offset) => pattern_offset,
+                None => return false,
+            },
             PatternType::BoundToStart => self.pattern_offset as u64,
-            PatternType::Unbound => data_offset,
+            PatternType::Unbound => data_offset + buffer_offset as u64,
         };
         let mediator: MediatorReference = Mediator::current();
         if mediator.debug_output {
@@ -80,22 +83,14 @@ impl Signature {
         if pattern_offset < data_offset {
             return false;
         }
-        let scan_offset: usize = match self.pattern_type {
-            PatternType::Unbound => buffer_offset,
-            _ => (pattern_offset - data_offset) as usize,
-        };
+        let scan_offset: usize = (pattern_offset - data_offset) as usize;
         let scan_end_offset: usize = scan_offset + self.pattern_size;
 
-        if scan_end_offset > buffer_size || (scan_end_offset as u64) > data_size {
-            return false;
-        }
-        if buffer[scan_offset..scan_end_offset] != self.pattern {
+        if scan_end_offset > buffer_size || pattern_offset + (self.pattern_size as u64) > data_size
+        {
             return false;
         }
-        match self.pattern_type {
-            PatternType::Unbound => true,
-            _ => (data_offset + scan_offset as u64) == pattern_offset,
-        }
+        buffer[scan_offset..scan_end_offset] == self.pattern
     }
 }
 
diff --git a/keramics-sigscan/src/signature_table.rs b/keramics-sigscan/src/signature_table.rs
index fdd2275..2649d19 100644
--- a/keramics-sigscan/src/signature_table.rs
+++ b/keramics-sigscan/src/signature_table.rs
@@ -363,7 +363,11 @@ impl SignatureTable {
             Some(byte_value_group) => {
                 for (_, signature_group) in byte_value_group.signature_groups.iter() {
                     for signature in signature_group.signatures.iter() {
-                        if !signatures.contains(signature) {
+                        // Note that different signatures can have the same pattern.
+                        if !signatures
+                            .iter()
+                            .any(|node_signature| Arc::ptr_eq(node_signature, signature))
+                        {
                             signatures.push(Arc::clone(signature));
                         }
                     }
@@ -384,7 +388,11 @@ impl SignatureTable {
         match self.byte_value_groups.get_mut(&pattern_offset) {
             Some(byte_value_group) => byte_value_group.insert_signature(byte_value, signature),
             None => {
-                self.smallest_pattern_offset = min(pattern_offset, self.smallest_pattern_offset);
+                self.smallest_pattern_offset = if self.byte_value_groups.is_empty() {
+                    pattern_offset
+                } else {
+                    min(pattern_offset, self.smallest_pattern_offset)
+                };
 
                 let mut byte_value_group: ByteValueGroup = ByteValueGroup::new(pattern_offset);
                 byte_value_group.insert_signature(byte_value, signature);
-- 
2.43.0


From 09f471c2e56995781d5962a1e1ffe15480bec126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:35 +0000
Subject: [PATCH 08/48] fix: format scanner read the footer of small data
 streams at the wrong offset

---
 keramics-formats/src/scanner.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/keramics-formats/src/scanner.rs b/keramics-formats/src/scanner.rs
index 561d40f..bf2edcf 100644
--- a/keramics-formats/src/scanner.rs
+++ b/keramics-formats/src/scanner.rs
@@ -263,13 +263,9 @@ impl FormatScanner {
         scan_context.scan_buffer(&data);
 
         // The size of the footer range can be larger than the size of the data stream.
-        let mut data: Vec<u8> = vec![0; scan_context.footer_range_size as usize];
+        let footer_size: u64 = std::cmp::min(scan_context.footer_range_size, data_size);
+        let mut data: Vec<u8> = vec![0; footer_size as usize];
 
-        let data_offset: usize = if scan_context.footer_range_size < data_size {
-            0
-        } else {
-            (scan_context.footer_range_size - data_size) as usize
-        };
         let data_stream_offset: u64 = if scan_context.footer_range_size < data_size {
             data_size - scan_context.footer_range_size
         } else {
@@ -277,7 +273,7 @@ impl FormatScanner {
         };
         keramics_core::data_stream_read_at_position!(
             data_stream,
-            &mut data[data_offset..],
+            &mut data,
             SeekFrom::Start(data_stream_offset)
         );
         scan_context.data_offset = data_stream_offset;
-- 
2.43.0


From a1fd0e57dcdcc25fcc1daa95b3cee7d4b65374c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:20 +0000
Subject: [PATCH 09/48] fix: layout map of signed 8-bit integers and 64-bit
 wide bit fields did not compile

---
 keramics-layout-map/src/structure.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/keramics-layout-map/src/structure.rs b/keramics-layout-map/src/structure.rs
index 5e10d77..9d9f617 100644
--- a/keramics-layout-map/src/structure.rs
+++ b/keramics-layout-map/src/structure.rs
@@ -405,9 +405,8 @@ impl StructureLayoutField {
                 }
                 _ => panic!("Unsupported byte order"),
             },
-            DataType::SignedInteger8Bit | DataType::UnsignedInteger8Bit => {
-                quote!(data[#data_offset])
-            }
+            DataType::SignedInteger8Bit => quote!((data[#data_offset] as i8)),
+            DataType::UnsignedInteger8Bit => quote!(data[#data_offset]),
             DataType::SignedInteger16Bit => match byte_order {
                 &ByteOrder::BigEndian => {
                     quote!(keramics_types::bytes_to_i16_be!(data, #data_offset))
@@ -668,8 +667,8 @@ impl StructureLayout {
         for bitfield in bitfields_group.bitfields.iter() {
             let field_name: Ident = format_ident!("{}", bitfield.name);
 
-            let bit_mask: usize = (1 << bitfield.number_of_bits) - 1;
-            let bit_mask_literal = Literal::usize_unsuffixed(bit_mask);
+            let bit_mask: u64 = u64::MAX >> (64 - bitfield.number_of_bits);
+            let bit_mask_literal = Literal::u64_unsuffixed(bit_mask);
             let quote_from_packed_value = if bit_offset == 0 {
                 quote!(#packed_field_name & #bit_mask_literal)
             } else {
-- 
2.43.0


From c3c22c72ea0229cb433fa4e78cdfa30365334636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:25 +0000
Subject: [PATCH 10/48] fix: Adler-32 checksum of zlib compressed data was not
 verified, or over the wrong data

---
 keramics-compression/src/zlib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/keramics-compression/src/zlib.rs b/keramics-compression/src/zlib.rs
index 5c250cf..1b846b2 100644
--- a/keramics-compression/src/zlib.rs
+++ b/keramics-compression/src/zlib.rs
@@ -160,11 +160,12 @@ impl ZlibContext {
 
         bitstream.unread_data();
 
-        if 4 < bitstream.data_size - bitstream.data_offset {
+        if 4 <= bitstream.data_size - bitstream.data_offset {
             let stored_checksum: u32 = bytes_to_u32_be!(compressed_data, bitstream.data_offset);
 
             let mut adler32_context: Adler32Context = Adler32Context::new(1);
-            adler32_context.update(uncompressed_data);
+            adler32_context
+                .update(&uncompressed_data[0..deflate_context.uncompressed_data_size]);
             let calculated_checksum: u32 = adler32_context.finalize();
 
             if stored_checksum != calculated_checksum {
-- 
2.43.0


From 5fdfd2021b708539942ea782ece7db0bc840c754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:25 +0000
Subject: [PATCH 11/48] fix: DEFLATE blocks without distance codes and LZX
 blocks without match sizes codes were refused

---
 keramics-compression/src/deflate.rs | 8 +++++++-
 keramics-compression/src/lzx.rs     | 6 +++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/keramics-compression/src/deflate.rs b/keramics-compression/src/deflate.rs
index dabcfbe..c956ea6 100644
--- a/keramics-compression/src/deflate.rs
+++ b/keramics-compression/src/deflate.rs
@@ -400,7 +400,13 @@ impl DeflateContext {
             ));
         }
         literals_huffman_tree.build(&code_sizes[0..number_of_literal_codes])?;
-        distances_huffman_tree.build(&code_sizes[number_of_literal_codes..number_of_codes])?;
+
+        // Note that there are no distance codes if the block only contains literals.
+        let distance_code_sizes: &[u8] = &code_sizes[number_of_literal_codes..number_of_codes];
+
+        if distance_code_sizes.iter().any(|code_size| *code_size != 0) {
+            distances_huffman_tree.build(distance_code_sizes)?;
+        }
 
         Ok(())
     }
diff --git a/keramics-compression/src/lzx.rs b/keramics-compression/src/lzx.rs
index 81550a2..ca6eaa9 100644
--- a/keramics-compression/src/lzx.rs
+++ b/keramics-compression/src/lzx.rs
@@ -279,7 +279,11 @@ impl LzxContext {
                     self.read_code_sizes(&mut bitstream, &mut match_sizes_code_sizes, 249)?;
 
                     let mut match_sizes_huffman_tree: HuffmanTree = HuffmanTree::new(249, 16);
-                    match_sizes_huffman_tree.build(&match_sizes_code_sizes)?;
+
+                    // Note that there are no match sizes codes if the block has no large matches.
+                    if match_sizes_code_sizes.iter().any(|code_size| *code_size != 0) {
+                        match_sizes_huffman_tree.build(&match_sizes_code_sizes)?;
+                    }
 
                     self.decompress_huffmann_encoded_block(
                         &mut bitstream,
-- 
2.43.0


From 37a9592157a2cf52c42e44c282382a92b1885831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:20 +0000
Subject: [PATCH 12/48] fix: truncated DEFLATE and LZX compressed data was
 completed with made up data

---
 keramics-compression/src/deflate.rs | 11 +++++++++++
 keramics-compression/src/lzx.rs     | 11 +++++++++++
 2 files changed, 22 insertions(+)

diff --git a/keramics-compression/src/deflate.rs b/keramics-compression/src/deflate.rs
index c956ea6..b9f87fd 100644
--- a/keramics-compression/src/deflate.rs
+++ b/keramics-compression/src/deflate.rs
@@ -74,6 +74,9 @@ pub(super) struct DeflateBitstream<'a> {
 
     /// Number of bits in the bits buffer.
     pub number_of_bits: usize,
+
+    /// Value to indicate if more bits were read than available in the byte stream.
+    pub has_overflow: bool,
 }
 
 impl<'a> DeflateBitstream<'a> {
@@ -86,6 +89,7 @@ impl<'a> DeflateBitstream<'a> {
             data_size: data_size,
             bits: 0,
             number_of_bits: 0,
+            has_overflow: false,
         }
     }
 
@@ -131,6 +135,8 @@ impl<'a> DeflateBitstream<'a> {
             if self.data_offset < self.data_size {
                 self.bits |= (self.data[self.data_offset] as u32) << self.number_of_bits;
                 self.data_offset += 1;
+            } else {
+                self.has_overflow = true;
             }
             self.number_of_bits += 8;
         }
@@ -524,6 +530,11 @@ impl DeflateContext {
                     return Err(keramics_core::error_trace_new!("Unsupported block type"));
                 }
             }
+            if bitstream.has_overflow {
+                return Err(keramics_core::error_trace_new!(
+                    "Invalid compressed data value too small"
+                ));
+            }
             if block_header.last_block_flag != 0 {
                 break;
             }
diff --git a/keramics-compression/src/lzx.rs b/keramics-compression/src/lzx.rs
index ca6eaa9..b72be85 100644
--- a/keramics-compression/src/lzx.rs
+++ b/keramics-compression/src/lzx.rs
@@ -55,6 +55,9 @@ pub(super) struct LzxBitstream<'a> {
 
     /// Number of bits in the bits buffer.
     pub number_of_bits: usize,
+
+    /// Value to indicate if more bits were read than available in the byte stream.
+    pub has_overflow: bool,
 }
 
 impl<'a> LzxBitstream<'a> {
@@ -67,6 +70,7 @@ impl<'a> LzxBitstream<'a> {
             data_size: data_size,
             bits: 0,
             number_of_bits: 0,
+            has_overflow: false,
         }
     }
 
@@ -114,6 +118,8 @@ impl<'a> LzxBitstream<'a> {
             if self.data_size - self.data_offset >= 2 {
                 self.bits |= bytes_to_u16_le!(self.data, self.data_offset) as u32;
                 self.data_offset += 2;
+            } else {
+                self.has_overflow = true;
             }
             self.number_of_bits += 16;
         }
@@ -348,6 +354,11 @@ impl LzxContext {
                     )));
                 }
             };
+            if bitstream.has_overflow {
+                return Err(keramics_core::error_trace_new!(
+                    "Invalid compressed data value too small"
+                ));
+            }
         }
         self.decompress_adjust_call_instructions(uncompressed_data, uncompressed_data_offset)?;
 
-- 
2.43.0


From ba506743c393fa92acb976d27014885ada1c2b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:26 +0000
Subject: [PATCH 13/48] fix: bzip2 streams of more than one block or of a
 compression level larger than 1

---
 keramics-compression/src/bzip2.rs | 63 ++++++++++++++++++++++---------
 1 file changed, 46 insertions(+), 17 deletions(-)

diff --git a/keramics-compression/src/bzip2.rs b/keramics-compression/src/bzip2.rs
index db14796..ae3b26f 100644
--- a/keramics-compression/src/bzip2.rs
+++ b/keramics-compression/src/bzip2.rs
@@ -29,7 +29,7 @@ use super::traits::Bitstream;
 /// Bzip2 data header signature.
 pub(super) const BZIP2_DATA_HEADER_SIGNATURE: [u8; 2] = [0x42, 0x5a]; // BZ
 
-/// Bzip2 block size;
+/// Bzip2 block size of compression level 1.
 pub(super) const BZIP2_BLOCK_SIZE: usize = 100000;
 
 /// Bitstream for bzip2 compressed data.
@@ -149,12 +149,17 @@ impl<'a> Bitstream for Bzip2Bitstream<'a> {
     method(name = "debug_read_data")
 )]
 /// Stream header used by bzip2 compressed data.
-struct Bzip2StreamHeader {}
+struct Bzip2StreamHeader {
+    /// Compression level.
+    compression_level: u8,
+}
 
 impl Bzip2StreamHeader {
     /// Creates a new stream header.
     pub fn new() -> Self {
-        Self {}
+        Self {
+            compression_level: 0,
+        }
     }
 
     /// Reads the stream header.
@@ -177,6 +182,8 @@ impl Bzip2StreamHeader {
                 compression_level as char
             )));
         }
+        self.compression_level = compression_level - 0x30;
+
         Ok(())
     }
 }
@@ -254,6 +261,9 @@ pub struct Bzip2Context {
     /// Mediator.
     mediator: MediatorReference,
 
+    /// Block size.
+    block_size: usize,
+
     /// Uncompressed data size.
     pub uncompressed_data_size: usize,
 }
@@ -263,6 +273,7 @@ impl Bzip2Context {
     pub fn new() -> Self {
         Self {
             mediator: Mediator::current(),
+            block_size: BZIP2_BLOCK_SIZE,
             uncompressed_data_size: 0,
         }
     }
@@ -295,6 +306,8 @@ impl Bzip2Context {
         }
         data_header.read_data(compressed_data)?;
 
+        self.block_size = data_header.compression_level as usize * BZIP2_BLOCK_SIZE;
+
         let mut bitstream: Bzip2Bitstream = Bzip2Bitstream::new(&compressed_data, 4);
         self.decompress_bitstream(&mut bitstream, uncompressed_data)?;
 
@@ -307,7 +320,9 @@ impl Bzip2Context {
         bitstream: &mut Bzip2Bitstream,
         uncompressed_data: &mut [u8],
     ) -> Result<(), ErrorTrace> {
-        let mut block_data: [u8; BZIP2_BLOCK_SIZE] = [0; BZIP2_BLOCK_SIZE];
+        let mut block_data: Vec<u8> = vec![0; self.block_size];
+        let mut calculated_checksum: u32 = 0;
+        let mut crc32_context: Crc32Context = Crc32Context::new(0x04c11db7, 0);
         let mut selectors: [u8; 32769] = [0; 32769]; // ( 1 << 15 ) + 1 = 32769
         let mut symbol_stack: [u8; 256] = [0; 256];
         let mut uncompressed_data_offset: usize = 0;
@@ -318,9 +333,15 @@ impl Bzip2Context {
             block_header.read_from_bitstream(bitstream)?;
 
             if block_header.signature == 0x177245385090 {
+                if block_header.checksum != calculated_checksum {
+                    return Err(keramics_core::error_trace_new!(format!(
+                        "Mismatch between stored: 0x{:08x} and calculated: 0x{:08x} bzip2 stream checksums",
+                        block_header.checksum, calculated_checksum
+                    )));
+                }
                 break;
             }
-            if (block_header.origin_pointer as usize) >= BZIP2_BLOCK_SIZE {
+            if (block_header.origin_pointer as usize) >= self.block_size {
                 return Err(keramics_core::error_trace_new!(format!(
                     "Invalid origin pointer: 0x{:06x} value out of bounds",
                     block_header.origin_pointer
@@ -367,6 +388,8 @@ impl Bzip2Context {
                 number_of_symbols,
                 &mut block_data,
             )?;
+            let block_offset: usize = uncompressed_data_offset;
+
             self.reverse_burrows_wheeler_transform(
                 &block_data,
                 block_data_size,
@@ -375,16 +398,16 @@ impl Bzip2Context {
                 &mut uncompressed_data_offset,
                 uncompressed_data_size,
             )?;
-        }
-        let mut crc32_context: Crc32Context = Crc32Context::new(0x04c11db7, 0);
-        crc32_context.update(&uncompressed_data[0..uncompressed_data_offset]);
-        let calculated_checksum: u32 = crc32_context.finalize();
+            crc32_context.update(&uncompressed_data[block_offset..uncompressed_data_offset]);
+            let block_checksum: u32 = crc32_context.finalize();
 
-        if block_header.checksum != calculated_checksum {
-            return Err(keramics_core::error_trace_new!(format!(
-                "Mismatch between stored: 0x{:08x} and calculated: 0x{:08x} bzip2 block checksums",
-                block_header.checksum, calculated_checksum
-            )));
+            if block_header.checksum != block_checksum {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Mismatch between stored: 0x{:08x} and calculated: 0x{:08x} bzip2 block checksums",
+                    block_header.checksum, block_checksum
+                )));
+            }
+            calculated_checksum = calculated_checksum.rotate_left(1) ^ block_checksum;
         }
         self.uncompressed_data_size = uncompressed_data_offset;
 
@@ -431,7 +454,7 @@ impl Bzip2Context {
                     self.mediator
                         .debug_print(format!("    0-byte run-length: {}\n", run_length,));
                 }
-                if (run_length as usize) > BZIP2_BLOCK_SIZE - block_data_offset {
+                if (run_length as usize) > block_data.len() - block_data_offset {
                     return Err(keramics_core::error_trace_new!(format!(
                         "Invalid run length: {} value out of bounds",
                         run_length
@@ -479,7 +502,7 @@ impl Bzip2Context {
                     self.mediator
                         .debug_print(format!("    symbol: {} (MTF: {})\n", symbol, stack_value));
                 }
-                if block_data_offset >= BZIP2_BLOCK_SIZE {
+                if block_data_offset >= block_data.len() {
                     return Err(keramics_core::error_trace_new!(format!(
                         "Invalid block data offset: {} value out of bounds",
                         block_data_offset
@@ -697,7 +720,7 @@ impl Bzip2Context {
         let mut distributions: [usize; 256] = [0; 256];
         let mut last_byte_value: u8 = 0;
         let mut number_of_last_byte_values: u8 = 0;
-        let mut permutations: [usize; BZIP2_BLOCK_SIZE] = [0; BZIP2_BLOCK_SIZE];
+        let mut permutations: Vec<usize> = vec![0; block_data_size];
 
         for block_data_offset in 0..block_data_size {
             let byte_value: u8 = block_data[block_data_offset];
@@ -714,6 +737,12 @@ impl Bzip2Context {
             permutations[distribution_value] = block_data_offset;
             distributions[byte_value as usize] += 1;
         }
+        if (origin_pointer as usize) >= block_data_size {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid origin pointer: 0x{:06x} value out of bounds",
+                origin_pointer
+            )));
+        }
         let mut permutation_value: usize = permutations[origin_pointer as usize];
 
         for _ in 0..block_data_size {
-- 
2.43.0


From 796144ab1bd2e4b697856c2c7b007193f9b6e0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:32 +0000
Subject: [PATCH 14/48] fix: bzip2 code sizes of 20 and malformed code sizes,
 selectors and run lengths

---
 keramics-compression/src/bzip2.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/keramics-compression/src/bzip2.rs b/keramics-compression/src/bzip2.rs
index ae3b26f..25269c1 100644
--- a/keramics-compression/src/bzip2.rs
+++ b/keramics-compression/src/bzip2.rs
@@ -431,6 +431,9 @@ impl Bzip2Context {
         let mut number_of_run_length_symbols: u64 = 0;
         let mut run_length_value: u64 = 0;
         let mut symbol_index: usize = 0;
+        if number_of_selectors == 0 {
+            return Err(keramics_core::error_trace_new!("Missing selectors"));
+        }
         let mut tree_index: usize = selectors[0] as usize;
 
         if self.mediator.debug_output {
@@ -480,6 +483,11 @@ impl Bzip2Context {
                 break;
             }
             if symbol == 0 || symbol == 1 {
+                if number_of_run_length_symbols >= 32 {
+                    return Err(keramics_core::error_trace_new!(
+                        "Invalid number of run length symbols value out of bounds"
+                    ));
+                }
                 run_length_value |= (symbol as u64) << (number_of_run_length_symbols as u64);
                 number_of_run_length_symbols += 1;
 
@@ -522,7 +530,7 @@ impl Bzip2Context {
             if symbol_index % 50 == 0 {
                 let selector_index: usize = symbol_index / 50;
 
-                if selector_index > number_of_selectors {
+                if selector_index >= number_of_selectors {
                     return Err(keramics_core::error_trace_new!(format!(
                         "Invalid selector index: {} value out of bounds",
                         selector_index
@@ -549,7 +557,7 @@ impl Bzip2Context {
         let mut largest_code_size: u32 = code_size;
 
         for symbol_index in 0..number_of_symbols {
-            while code_size < 20 {
+            while code_size >= 1 && code_size <= 20 {
                 let value_32bit: u32 = bitstream.get_value(1);
                 if value_32bit == 0 {
                     break;
@@ -561,7 +569,7 @@ impl Bzip2Context {
                     code_size -= 1;
                 }
             }
-            if code_size >= 20 {
+            if code_size < 1 || code_size > 20 {
                 return Err(keramics_core::error_trace_new!(format!(
                     "Invalid code size: {} value out of bounds",
                     code_size
@@ -577,7 +585,7 @@ impl Bzip2Context {
                 largest_code_size
             )));
         }
-        let mut check_value: u32 = 1 << largest_code_size;
+        let mut check_value: i64 = 1 << largest_code_size;
 
         for symbol_index in 0..number_of_symbols {
             code_size = code_size_array[symbol_index] as u32;
-- 
2.43.0


From 231167b23b25af8ba0306af66e4caf30114405b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:37 +0000
Subject: [PATCH 15/48] fix: LZVN match with a distance of 0 copied the
 contents of the output buffer

---
 keramics-compression/src/lzvn.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/keramics-compression/src/lzvn.rs b/keramics-compression/src/lzvn.rs
index 9c93d77..c564ed7 100644
--- a/keramics-compression/src/lzvn.rs
+++ b/keramics-compression/src/lzvn.rs
@@ -477,6 +477,11 @@ impl LzvnContext {
                 uncompressed_data_offset = uncompressed_data_end_offset;
             }
             if match_size > 0 {
+                if distance == 0 {
+                    return Err(keramics_core::error_trace_new!(
+                        "Invalid distance value out of bounds"
+                    ));
+                }
                 if distance as usize > uncompressed_data_offset {
                     return Err(keramics_core::error_trace_new!(
                         "Invalid distance value exceeds uncompressed data offset"
-- 
2.43.0


From d1d2af5c1bf84cfb941ac73defc07f68981db9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:44 +0000
Subject: [PATCH 16/48] fix: LZFSE version 1 frequencies, small compressed
 blocks and malformed frequency tables and distances

---
 keramics-compression/src/lzfse.rs | 40 +++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/keramics-compression/src/lzfse.rs b/keramics-compression/src/lzfse.rs
index bf9d1da..a54fb3b 100644
--- a/keramics-compression/src/lzfse.rs
+++ b/keramics-compression/src/lzfse.rs
@@ -489,14 +489,14 @@ impl LzfseContext {
             if frequency == 0 {
                 continue;
             }
-            sum_of_frequencies += frequency as i16;
-
-            if sum_of_frequencies > number_of_states {
+            if frequency > (number_of_states - sum_of_frequencies) as u16 {
                 return Err(keramics_core::error_trace_new!(format!(
-                    "Invalid sum of frequencies: {} value out of bounds",
-                    sum_of_frequencies,
+                    "Invalid frequency: {} of symbol: {} value out of bounds",
+                    frequency, symbol,
                 )));
             }
+            sum_of_frequencies += frequency as i16;
+
             let number_of_bits: u32 = frequency.leading_zeros() - number_of_leading_zeros;
             let base_decoder_weight: i16 =
                 ((2 * number_of_states) >> number_of_bits) - frequency as i16;
@@ -546,14 +546,14 @@ impl LzfseContext {
             if frequency == 0 {
                 continue;
             }
-            sum_of_frequencies += frequency as i16;
-
-            if sum_of_frequencies > number_of_states {
+            if frequency > (number_of_states - sum_of_frequencies) as u16 {
                 return Err(keramics_core::error_trace_new!(format!(
-                    "Invalid sum of frequencies: {} value out of bounds",
-                    sum_of_frequencies,
+                    "Invalid frequency: {} of symbol: {} value out of bounds",
+                    frequency, symbol,
                 )));
             }
+            sum_of_frequencies += frequency as i16;
+
             let number_of_bits: u32 = frequency.leading_zeros() - number_of_leading_zeros;
             let base_decoder_weight: i16 =
                 ((2 * number_of_states) >> number_of_bits) - frequency as i16;
@@ -816,6 +816,11 @@ impl LzfseContext {
                             [uncompressed_data_offset..uncompressed_data_end_offset],
                     )?;
 
+                    if self.lzvn_context.uncompressed_data_size != uncompressed_block_size as usize {
+                        return Err(keramics_core::error_trace_new!(
+                            "Mismatch between LZVN block and uncompressed data size"
+                        ));
+                    }
                     compressed_data_offset = compressed_data_end_offset;
                     uncompressed_data_offset = uncompressed_data_end_offset;
                 }
@@ -922,7 +927,6 @@ impl LzfseContext {
                 .debug_print(format!("LzfseFrequencyTable {{\n"));
             self.mediator.debug_print(format!("    values: [\n"));
         }
-        let mut data_offset: usize = 42;
         for frequency_table_index in 0..360 {
             let frequency_value: u16 = bytes_to_u16_le!(compressed_data, data_offset);
             data_offset += 2;
@@ -981,13 +985,15 @@ impl LzfseContext {
                 ));
         }
         block_header.read_data(&compressed_data[data_offset..data_end_offset], decoder)?;
-        if block_header.header_size as usize > compressed_data_size - data_offset {
+        if block_header.header_size as usize - 8 > compressed_data_size - data_offset {
             return Err(keramics_core::error_trace_new!(
                 "Invalid compressed data value too small"
             ));
         }
         data_offset = data_end_offset;
 
+        frequency_table.fill(0);
+
         if block_header.header_size > 32 {
             let compressed_data_size: usize = block_header.header_size as usize - 32;
             data_end_offset += compressed_data_size;
@@ -1016,6 +1022,11 @@ impl LzfseContext {
                 let frequency_value_size: u8 =
                     LZFSE_FREQUENCY_NUMBER_OF_BITS_TABLE[table_index as usize];
 
+                if frequency_value_size as usize > number_of_bits {
+                    return Err(keramics_core::error_trace_new!(
+                        "Invalid compressed frequency table value too small"
+                    ));
+                }
                 let frequency_value: u16 = match frequency_value_size {
                     8 => (((value_32bit >> 4) & 0x0000000f) + 8) as u16,
                     14 => (((value_32bit >> 4) & 0x000003ff) + 24) as u16,
@@ -1264,7 +1275,10 @@ impl LzfseContext {
                     m_value
                 )));
             }
-            if active_d_value < 0 || active_d_value as usize > data_offset {
+            if active_d_value < 0
+                || active_d_value as usize > data_offset
+                || (active_d_value == 0 && m_value > 0)
+            {
                 return Err(keramics_core::error_trace_new!(format!(
                     "Invalid D value: {} value out of bounds",
                     active_d_value
-- 
2.43.0


From 62e2a50580cc26590483a329187e6c3c525664e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:54 +0000
Subject: [PATCH 17/48] fix: LZX uncompressed blocks that are aligned or of an
 odd size and data of less than 6 bytes

---
 keramics-compression/src/lzx.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/keramics-compression/src/lzx.rs b/keramics-compression/src/lzx.rs
index b72be85..353d1e4 100644
--- a/keramics-compression/src/lzx.rs
+++ b/keramics-compression/src/lzx.rs
@@ -304,6 +304,10 @@ impl LzxContext {
                     )?;
                 }
                 3 => {
+                    // Note that there are 1 to 16 bits of padding before the recent distances.
+                    if bitstream.number_of_bits == 0 {
+                        bitstream.skip_bits(16);
+                    }
                     if 12 > bitstream.data_size - bitstream.data_offset {
                         return Err(keramics_core::error_trace_new!(
                             "Invalid compressed data value too small"
@@ -346,6 +350,11 @@ impl LzxContext {
                         uncompressed_data_size,
                     )?;
                     uncompressed_data_offset += uncompressed_block_size;
+
+                    // Note that a block with an odd size is followed by a byte of padding.
+                    if block_size % 2 != 0 && bitstream.data_offset < bitstream.data_size {
+                        bitstream.data_offset += 1;
+                    }
                 }
                 _ => {
                     return Err(keramics_core::error_trace_new!(format!(
@@ -373,7 +382,11 @@ impl LzxContext {
         uncompressed_data: &mut [u8],
         uncompressed_data_size: usize,
     ) -> Result<(), ErrorTrace> {
-        if uncompressed_data_size < 6 || uncompressed_data_size > (i32::MAX as usize) {
+        // Note that call instructions are not adjusted in 10 bytes of data or less.
+        if uncompressed_data_size <= 10 {
+            return Ok(());
+        }
+        if uncompressed_data_size > (i32::MAX as usize) {
             return Err(keramics_core::error_trace_new!(
                 "Invalid uncompressed data size value out of bounds"
             ));
-- 
2.43.0


From 4155d7355530e9f324eeb6417fb7ebcb62b64d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:51 +0000
Subject: [PATCH 18/48] fix: block tree with values of different sizes

---
 keramics-formats/src/block_tree.rs      |  19 ++---
 keramics-formats/src/block_tree_node.rs | 104 +++++++++++++-----------
 2 files changed, 64 insertions(+), 59 deletions(-)

diff --git a/keramics-formats/src/block_tree.rs b/keramics-formats/src/block_tree.rs
index 471af06..3fc8a61 100644
--- a/keramics-formats/src/block_tree.rs
+++ b/keramics-formats/src/block_tree.rs
@@ -78,20 +78,17 @@ impl<T> BlockTree<T> {
         }
         let mut node: &BlockTreeNode<T> = self.root_node.as_ref().unwrap();
 
-        while node.node_type == BlockTreeNodeType::Branch {
-            let sub_node_index: u64 = (offset - node.offset) / node.element_size;
+        loop {
+            let index: usize = ((offset - node.offset) / node.element_size) as usize;
 
-            if node.sub_nodes[sub_node_index as usize].is_none() {
-                return None;
+            if let Some(Some(value)) = node.values.get(index) {
+                return Some(value);
             }
-            node = node.sub_nodes[sub_node_index as usize].as_ref().unwrap();
+            node = match node.sub_nodes.get(index) {
+                Some(Some(sub_node)) => sub_node,
+                _ => return None,
+            };
         }
-        let value_index: usize = ((offset - node.offset) / node.element_size) as usize;
-
-        if value_index >= node.values.len() || node.values[value_index].is_none() {
-            return None;
-        }
-        Some(node.values[value_index].as_ref().unwrap())
     }
 
     /// Inserts a (leaf) value.
diff --git a/keramics-formats/src/block_tree_node.rs b/keramics-formats/src/block_tree_node.rs
index 9f0a6fe..a99e066 100644
--- a/keramics-formats/src/block_tree_node.rs
+++ b/keramics-formats/src/block_tree_node.rs
@@ -11,6 +11,7 @@
  * under the License.
  */
 
+use std::cmp::{max, min};
 use std::sync::Arc;
 
 use super::errors::InsertError;
@@ -61,62 +62,69 @@ impl<T> BlockTreeNode<T> {
         size: u64,
         value: Arc<T>,
     ) -> Result<(), InsertError> {
-        if self.node_type == BlockTreeNodeType::Branch {
-            if self.sub_nodes.len() == 0 {
-                self.sub_nodes = (0..elements_per_node).map(|_| None).collect();
-            }
-            let number_of_sub_nodex: u64 = size.div_ceil(self.element_size);
-            let first_sub_node_index: u64 = (offset - self.offset) / self.element_size;
-            let last_sub_node_index: u64 = first_sub_node_index + number_of_sub_nodex;
-
-            let mut sub_node_element_size: u64 = leaf_value_size;
-
-            while self.element_size / sub_node_element_size > elements_per_node {
-                sub_node_element_size *= elements_per_node;
-            }
-            let sub_node_type: BlockTreeNodeType = if sub_node_element_size <= size {
-                BlockTreeNodeType::Leaf
+        let number_of_elements: usize = max(
+            elements_per_node as usize,
+            max(self.values.len(), self.sub_nodes.len()),
+        );
+        let end_offset: u64 = offset + size;
+        let first_index: u64 = (offset - self.offset) / self.element_size;
+        let end_index: u64 = (end_offset - self.offset).div_ceil(self.element_size);
+
+        for index in first_index..end_index {
+            let element_offset: u64 = self.offset + (index * self.element_size);
+            let element_end_offset: u64 = element_offset + self.element_size;
+
+            // A value that spans an entire element is set on the node, other values are set on a sub node.
+            if offset <= element_offset && end_offset >= element_end_offset {
+                if self.values.len() == 0 {
+                    self.values = (0..number_of_elements).map(|_| None).collect();
+                }
+                if self.values[index as usize].is_some()
+                    || (self.sub_nodes.len() > 0 && self.sub_nodes[index as usize].is_some())
+                {
+                    return Err(InsertError::new(format!("Leaf value already set")));
+                }
+                self.values[index as usize] = Some(value.clone());
             } else {
-                BlockTreeNodeType::Branch
-            };
-            let mut sub_node_offset: u64 = self.offset + (first_sub_node_index * self.element_size);
-
-            for sub_node_index in first_sub_node_index..last_sub_node_index {
-                if self.sub_nodes[sub_node_index as usize].is_none() {
-                    let sub_node: BlockTreeNode<T> =
-                        BlockTreeNode::new(&sub_node_type, sub_node_offset, sub_node_element_size);
-                    self.sub_nodes[sub_node_index as usize] = Some(sub_node);
+                if self.values.len() > 0 && self.values[index as usize].is_some() {
+                    return Err(InsertError::new(format!("Leaf value already set")));
+                }
+                if self.sub_nodes.len() == 0 {
+                    self.sub_nodes = (0..number_of_elements).map(|_| None).collect();
+                }
+                self.node_type = BlockTreeNodeType::Branch;
+
+                let sub_node_offset: u64 = max(offset, element_offset);
+                let sub_node_size: u64 = min(end_offset, element_end_offset) - sub_node_offset;
+
+                if self.sub_nodes[index as usize].is_none() {
+                    let mut sub_node_element_size: u64 = leaf_value_size;
+
+                    while self.element_size / sub_node_element_size > elements_per_node {
+                        sub_node_element_size *= elements_per_node;
+                    }
+                    let sub_node_type: BlockTreeNodeType = if sub_node_element_size <= sub_node_size
+                    {
+                        BlockTreeNodeType::Leaf
+                    } else {
+                        BlockTreeNodeType::Branch
+                    };
+                    self.sub_nodes[index as usize] = Some(BlockTreeNode::new(
+                        &sub_node_type,
+                        element_offset,
+                        sub_node_element_size,
+                    ));
                 }
                 let sub_node: &mut BlockTreeNode<T> =
-                    &mut self.sub_nodes[sub_node_index as usize].as_mut().unwrap();
+                    self.sub_nodes[index as usize].as_mut().unwrap();
+
                 sub_node.insert_value(
                     elements_per_node,
                     leaf_value_size,
-                    offset,
-                    size,
+                    sub_node_offset,
+                    sub_node_size,
                     value.clone(),
                 )?;
-                sub_node_offset += self.element_size;
-            }
-        } else {
-            if size % self.element_size != 0 {
-                return Err(InsertError::new(format!(
-                    "Size: {} not a multitude of node element size: {}",
-                    size, self.element_size
-                )));
-            }
-            if self.values.len() == 0 {
-                self.values = (0..elements_per_node).map(|_| None).collect();
-            }
-            let number_of_values: u64 = size / self.element_size;
-            let first_value_index: u64 = (offset - self.offset) / self.element_size;
-            let last_value_index: u64 = first_value_index + number_of_values;
-
-            for value_index in first_value_index..last_value_index {
-                if self.values[value_index as usize].is_some() {
-                    return Err(InsertError::new(format!("Leaf value already set")));
-                }
-                self.values[value_index as usize] = Some(value.clone());
             }
         }
         Ok(())
-- 
2.43.0


From 8c0963efc238182896e1724a3fe25d092392ffab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:17 +0000
Subject: [PATCH 19/48] fix: extension and file stem of path components with
 multi-byte characters or of other string types

---
 keramics-formats/src/path_component.rs | 56 +++++++++++---------------
 1 file changed, 24 insertions(+), 32 deletions(-)

diff --git a/keramics-formats/src/path_component.rs b/keramics-formats/src/path_component.rs
index 0e4536e..fb5288d 100644
--- a/keramics-formats/src/path_component.rs
+++ b/keramics-formats/src/path_component.rs
@@ -25,44 +25,36 @@ pub enum PathComponent {
 impl PathComponent {
     /// Retrieves the extension if available.
     pub fn extension(&self) -> Option<PathComponent> {
-        match self {
-            PathComponent::String(string) => {
-                if string.is_empty() {
-                    None
-                } else {
-                    match string[1..].chars().rev().position(|value| value == '.') {
-                        Some(value_index) => {
-                            // Note that value_index is relative to end of the string.
-                            let string_index: usize = string.len() - value_index;
-                            Some(PathComponent::String(string[string_index..].to_string()))
-                        }
-                        None => None,
-                    }
-                }
-            }
-            _ => todo!(),
+        let string: String = self.to_string();
+
+        match Self::get_extension_separator_offset(&string) {
+            Some(offset) => Some(PathComponent::String(string[offset + 1..].to_string())),
+            None => None,
         }
     }
 
     /// Retrieves the file stem if available.
     pub fn file_stem(&self) -> Option<PathComponent> {
-        match self {
-            PathComponent::String(string) => {
-                if string.is_empty() {
-                    None
-                } else {
-                    match string[1..].chars().rev().position(|value| value == '.') {
-                        Some(value_index) => {
-                            // Note that value_index is relative to end of the string.
-                            let string_size: usize = string.len() - value_index - 1;
-                            Some(PathComponent::String(string[0..string_size].to_string()))
-                        }
-                        None => Some(PathComponent::String(string.clone())),
-                    }
-                }
-            }
-            _ => todo!(),
+        let string: String = self.to_string();
+
+        if string.is_empty() {
+            return None;
         }
+        match Self::get_extension_separator_offset(&string) {
+            Some(offset) => Some(PathComponent::String(string[..offset].to_string())),
+            None => Some(PathComponent::String(string)),
+        }
+    }
+
+    /// Retrieves the offset of the separator of the extension if available.
+    fn get_extension_separator_offset(string: &str) -> Option<usize> {
+        // Note that a separator at the start of the string does not precede an extension.
+        string
+            .char_indices()
+            .skip(1)
+            .filter(|(_, character)| *character == '.')
+            .last()
+            .map(|(offset, _)| offset)
     }
 
     /// Converts the path components to a `String`.
-- 
2.43.0


From b1eedfaef650efb918de67c94f34f358cda572d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:17 +0000
Subject: [PATCH 20/48] fix: QCOW ranges that are not allocated, zero and
 compressed clusters and circular backing files

---
 keramics-formats/src/qcow/file.rs  | 177 ++++++++++++++++++++++++-----
 keramics-formats/src/qcow/image.rs |  10 ++
 2 files changed, 159 insertions(+), 28 deletions(-)

diff --git a/keramics-formats/src/qcow/file.rs b/keramics-formats/src/qcow/file.rs
index 46bf951..f9023d3 100644
--- a/keramics-formats/src/qcow/file.rs
+++ b/keramics-formats/src/qcow/file.rs
@@ -11,14 +11,17 @@
  * under the License.
  */
 
+use std::cmp::min;
 use std::io::SeekFrom;
 use std::sync::{Arc, RwLock};
 
+use keramics_compression::DeflateContext;
 use keramics_core::mediator::{Mediator, MediatorReference};
 use keramics_core::{DataStream, DataStreamReference, ErrorTrace};
 use keramics_types::ByteString;
 
 use crate::block_tree::BlockTree;
+use crate::lru_cache::LruCache;
 
 use super::block_range::{QcowBlockRange, QcowBlockRangeType};
 use super::cluster_table::{QcowClusterTable, QcowClusterTableEntry};
@@ -84,6 +87,12 @@ pub struct QcowFile {
     /// Block tree.
     block_tree: BlockTree<QcowBlockRange>,
 
+    /// Block tree data size.
+    block_tree_data_size: u64,
+
+    /// Cache of uncompressed cluster blocks.
+    block_cache: LruCache<u64, Vec<u8>>,
+
     /// Backing file name.
     backing_file_name: Option<ByteString>,
 
@@ -120,6 +129,8 @@ impl QcowFile {
             compression_method: QcowCompressionMethod::Zlib,
             encryption_method: QcowEncryptionMethod::None,
             block_tree: BlockTree::<QcowBlockRange>::new(0, 0, 0),
+            block_tree_data_size: 0,
+            block_cache: LruCache::new(8),
             backing_file_name: None,
             backing_file: None,
             media_size: 0,
@@ -177,15 +188,6 @@ impl QcowFile {
                 _ => QcowCompressionMethod::Unknown,
             };
         }
-        if self.format_version == 1 {
-            self.offset_bit_mask = 0x7fffffffffffffff;
-            self.compression_flag_bit_mask = 1 << 63;
-            self.compression_bit_shift = 63 - self.number_of_cluster_block_bits;
-        } else {
-            self.offset_bit_mask = 0x3fffffffffffffff;
-            self.compression_flag_bit_mask = 1 << 62;
-            self.compression_bit_shift = 62 - self.number_of_cluster_block_bits;
-        }
         self.level1_index_bit_shift =
             self.number_of_cluster_block_bits + file_header.number_of_level2_table_bits;
 
@@ -195,6 +197,15 @@ impl QcowFile {
                 self.level1_index_bit_shift
             )));
         }
+        if self.format_version == 1 {
+            self.offset_bit_mask = 0x7fffffffffffffff;
+            self.compression_flag_bit_mask = 1 << 63;
+            self.compression_bit_shift = 63 - self.number_of_cluster_block_bits;
+        } else {
+            self.offset_bit_mask = 0x00fffffffffffe00;
+            self.compression_flag_bit_mask = 1 << 62;
+            self.compression_bit_shift = 70 - self.number_of_cluster_block_bits;
+        }
         self.level2_index_bit_mask =
             !(u64::MAX << (file_header.number_of_level2_table_bits as u64));
         self.cluster_block_bit_mask = !(u64::MAX << self.number_of_cluster_block_bits);
@@ -246,8 +257,17 @@ impl QcowFile {
             level1_table_number_of_references as u32,
         );
 
-        let block_tree_data_size: u64 =
-            self.media_size.div_ceil(self.cluster_block_size) * self.cluster_block_size;
+        let number_of_cluster_blocks: u64 = self.media_size.div_ceil(self.cluster_block_size);
+
+        if number_of_cluster_blocks > u64::MAX / self.cluster_block_size {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid media size: {} value out of bounds",
+                self.media_size
+            )));
+        }
+        let block_tree_data_size: u64 = number_of_cluster_blocks * self.cluster_block_size;
+
+        self.block_tree_data_size = block_tree_data_size;
         self.block_tree = BlockTree::<QcowBlockRange>::new(
             block_tree_data_size,
             self.level2_table_number_of_references,
@@ -345,13 +365,21 @@ impl QcowFile {
         let level2_table_offset: u64 = level1_entry.reference & self.offset_bit_mask;
 
         if level2_table_offset == 0 {
-            let range_media_size: u64 = 1 << self.level1_index_bit_shift;
+            let range_media_size: u64 = min(
+                1 << self.level1_index_bit_shift,
+                self.block_tree_data_size - level1_media_offset,
+            );
+            let range_type: QcowBlockRangeType = if self.backing_file_name.is_some() {
+                QcowBlockRangeType::InBackingFile
+            } else {
+                QcowBlockRangeType::Sparse
+            };
 
             let block_range: QcowBlockRange = QcowBlockRange::new(
                 level1_media_offset,
                 0,
                 range_media_size,
-                QcowBlockRangeType::Sparse,
+                range_type,
             );
             match self
                 .block_tree
@@ -388,24 +416,32 @@ impl QcowFile {
             };
             let level2_media_offset: u64 =
                 level1_media_offset + (level2_table_index * self.cluster_block_size);
-            let block_data_offset: u64 = level2_entry.reference & self.offset_bit_mask;
-            let range_type: QcowBlockRangeType = if block_data_offset == 0 {
+            let is_compressed: bool =
+                (level2_entry.reference & self.compression_flag_bit_mask) != 0;
+
+            // Note that the data offset of a compressed cluster block includes the compressed data size.
+            let block_data_offset: u64 = if is_compressed {
+                level2_entry.reference & (self.compression_flag_bit_mask - 1)
+            } else {
+                level2_entry.reference & self.offset_bit_mask
+            };
+            let range_type: QcowBlockRangeType = if is_compressed {
+                if self.encryption_method != QcowEncryptionMethod::None {
+                    return Err(keramics_core::error_trace_new!(
+                        "Unsupported combined encryption and compression"
+                    ));
+                }
+                QcowBlockRangeType::Compressed
+            } else if self.format_version == 3 && (level2_entry.reference & 0x00000001) != 0 {
+                QcowBlockRangeType::Sparse
+            } else if block_data_offset == 0 {
                 if self.backing_file_name.is_some() {
                     QcowBlockRangeType::InBackingFile
                 } else {
                     QcowBlockRangeType::Sparse
                 }
             } else {
-                if (level2_entry.reference & self.compression_flag_bit_mask) == 0 {
-                    QcowBlockRangeType::InFile
-                } else {
-                    if self.encryption_method != QcowEncryptionMethod::None {
-                        return Err(keramics_core::error_trace_new!(
-                            "Unsupported combined encryption and compression"
-                        ));
-                    }
-                    QcowBlockRangeType::Compressed
-                }
+                QcowBlockRangeType::InFile
             };
             let block_range: QcowBlockRange = QcowBlockRange::new(
                 level2_media_offset,
@@ -476,8 +512,36 @@ impl QcowFile {
             let data_end_offset: usize = data_offset + range_read_size;
             let range_read_count: usize = match block_range.range_type {
                 QcowBlockRangeType::Compressed => {
-                    // TODO: add compression support.
-                    todo!();
+                    let block_media_offset: u64 = block_range.media_offset;
+                    let block_data_offset: u64 = block_range.data_offset;
+
+                    if !self.block_cache.contains(&block_media_offset) {
+                        let block_data: Vec<u8> =
+                            match self.read_compressed_cluster_block(block_data_offset) {
+                                Ok(block_data) => block_data,
+                                Err(mut error) => {
+                                    keramics_core::error_trace_add_frame!(
+                                        error,
+                                        "Unable to read compressed cluster block"
+                                    );
+                                    return Err(error);
+                                }
+                            };
+                        self.block_cache.insert(block_media_offset, block_data);
+                    }
+                    let block_data: &Vec<u8> = match self.block_cache.get(&block_media_offset) {
+                        Some(block_data) => block_data,
+                        None => {
+                            return Err(keramics_core::error_trace_new!(
+                                "Unable to retrieve data from cache"
+                            ));
+                        }
+                    };
+                    let block_offset: usize = range_relative_offset as usize;
+                    data[data_offset..data_end_offset].copy_from_slice(
+                        &block_data[block_offset..block_offset + range_read_size],
+                    );
+                    range_read_size
                 }
                 QcowBlockRangeType::InBackingFile => {
                     let backing_file: &Arc<RwLock<QcowFile>> = match self.backing_file.as_ref() {
@@ -491,7 +555,10 @@ impl QcowFile {
                         &mut data[data_offset..data_end_offset],
                         SeekFrom::Start(media_offset)
                     );
-                    read_count
+                    // Note that the backing file can be smaller than the media.
+                    data[data_offset + read_count..data_end_offset].fill(0);
+
+                    range_read_size
                 }
                 QcowBlockRangeType::InFile => {
                     let data_stream: &DataStreamReference = match self.data_stream.as_ref() {
@@ -522,6 +589,60 @@ impl QcowFile {
         Ok(data_offset)
     }
 
+    /// Reads a compressed cluster block.
+    fn read_compressed_cluster_block(&self, block_reference: u64) -> Result<Vec<u8>, ErrorTrace> {
+        let data_stream: &DataStreamReference = match self.data_stream.as_ref() {
+            Some(data_stream) => data_stream,
+            None => {
+                return Err(keramics_core::error_trace_new!("Missing data stream"));
+            }
+        };
+        if self.compression_method != QcowCompressionMethod::Zlib {
+            return Err(keramics_core::error_trace_new!(
+                "Unsupported compression method"
+            ));
+        }
+        let data_offset: u64 = block_reference & self.compression_bit_mask;
+        let size_value: u64 = block_reference >> self.compression_bit_shift;
+
+        let data_size: u64 = if self.format_version == 1 {
+            size_value
+        } else {
+            // Note that the size is stored as the number of additional 512 byte sectors.
+            (size_value + 1) * 512 - (data_offset % 512)
+        };
+        if data_size > self.cluster_block_size * 2 {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid compressed data size: {} value out of bounds",
+                data_size
+            )));
+        }
+        let mut compressed_data: Vec<u8> = vec![0; data_size as usize];
+
+        // Note that the last sector of the file can be incomplete.
+        let read_count: usize = keramics_core::data_stream_read_at_position!(
+            data_stream,
+            &mut compressed_data,
+            SeekFrom::Start(data_offset)
+        );
+        let mut data: Vec<u8> = vec![0; self.cluster_block_size as usize];
+        let mut deflate_context: DeflateContext = DeflateContext::new();
+
+        match deflate_context.decompress(&compressed_data[..read_count], &mut data) {
+            Ok(_) => {}
+            Err(mut error) => {
+                keramics_core::error_trace_add_frame!(error, "Unable to decompress data");
+                return Err(error);
+            }
+        }
+        if deflate_context.uncompressed_data_size != data.len() {
+            return Err(keramics_core::error_trace_new!(
+                "Mismatch between uncompressed data and cluster block size"
+            ));
+        }
+        Ok(data)
+    }
+
     /// Sets the backing file.
     pub fn set_backing_file(
         &mut self,
diff --git a/keramics-formats/src/qcow/image.rs b/keramics-formats/src/qcow/image.rs
index 33a712a..eef0fa3 100644
--- a/keramics-formats/src/qcow/image.rs
+++ b/keramics-formats/src/qcow/image.rs
@@ -88,9 +88,19 @@ impl QcowImage {
                 return Err(error);
             }
         }
+        let mut file_names: Vec<String> = vec![file_name.to_string()];
+
         while let Some(file_name) = file.get_backing_file_name() {
             let backing_file_name: String = file_name.to_string();
 
+            if file_names.contains(&backing_file_name) {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Backing file: {} refers to itself",
+                    backing_file_name
+                )));
+            }
+            file_names.push(backing_file_name.clone());
+
             let path_components: [PathComponent; 1] = [PathComponent::from(&backing_file_name)];
             let result: Option<DataStreamReference> =
                 match file_resolver.get_data_stream(&path_components) {
-- 
2.43.0


From 30ca6c3ff245c13dc221c548c38a90a8066fcd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:55 +0000
Subject: [PATCH 21/48] fix: read VHD sector bitmaps, media size, small blocks
 and differential chains as the format describes

---
 .../src/vhd/dynamic_disk_header.rs            |  2 +-
 keramics-formats/src/vhd/file.rs              | 34 +++++++++++++------
 keramics-formats/src/vhd/file_footer.rs       |  2 +-
 keramics-formats/src/vhd/image.rs             | 10 ++++++
 keramics-formats/src/vhd/sector_bitmap.rs     | 16 ++++++---
 5 files changed, 47 insertions(+), 17 deletions(-)

diff --git a/keramics-formats/src/vhd/dynamic_disk_header.rs b/keramics-formats/src/vhd/dynamic_disk_header.rs
index 26a7def..019af31 100644
--- a/keramics-formats/src/vhd/dynamic_disk_header.rs
+++ b/keramics-formats/src/vhd/dynamic_disk_header.rs
@@ -104,7 +104,7 @@ impl VhdDynamicDiskHeader {
 
         // TODO: calculate and compare checksum.
 
-        if self.block_size == 0 {
+        if self.block_size == 0 || self.block_size % 512 != 0 {
             return Err(keramics_core::error_trace_new!(format!(
                 "Invalid block size: {} value out of bounds",
                 self.block_size
diff --git a/keramics-formats/src/vhd/file.rs b/keramics-formats/src/vhd/file.rs
index 6dd0d7d..954ad47 100644
--- a/keramics-formats/src/vhd/file.rs
+++ b/keramics-formats/src/vhd/file.rs
@@ -11,6 +11,7 @@
  * under the License.
  */
 
+use std::cmp::min;
 use std::io::SeekFrom;
 use std::sync::{Arc, RwLock};
 
@@ -185,7 +186,7 @@ impl VhdFile {
                 self.parent_name = Some(dynamic_disk_header.parent_name);
             }
             let sectors_ber_block: u32 = dynamic_disk_header.block_size / 512;
-            self.sector_bitmap_size = (sectors_ber_block / 8).div_ceil(512) * 512;
+            self.sector_bitmap_size = sectors_ber_block.div_ceil(8).div_ceil(512) * 512;
 
             self.block_allocation_table = Some(VhdBlockAllocationTable::new(
                 dynamic_disk_header.block_table_offset,
@@ -291,32 +292,40 @@ impl VhdFile {
         let mut range_media_offset: u64 = block_number * (self.block_size as u64);
         let mut range_data_offset: u64 = sector_bitmap_offset + (self.sector_bitmap_size as u64);
 
+        let mut remaining_size: u64 = self.block_size as u64;
+
         for bitmap_range in sector_bitmap.ranges.iter() {
+            // Note that the sector bitmap can be larger than the number of sectors in the block.
+            let range_size: u64 = min(bitmap_range.size, remaining_size);
+
+            if range_size == 0 {
+                break;
+            }
             let block_range: VhdBlockRange = if bitmap_range.is_set {
                 VhdBlockRange::new(
                     range_media_offset,
                     range_data_offset,
-                    bitmap_range.size,
+                    range_size,
                     VhdBlockRangeType::InFile,
                 )
             } else if self.disk_type == VhdDiskType::Dynamic {
                 VhdBlockRange::new(
                     range_media_offset,
                     0,
-                    bitmap_range.size,
+                    range_size,
                     VhdBlockRangeType::Sparse,
                 )
             } else {
                 VhdBlockRange::new(
                     range_media_offset,
                     0,
-                    bitmap_range.size,
+                    range_size,
                     VhdBlockRangeType::InParent,
                 )
             };
             match self
                 .block_tree
-                .insert_value(range_media_offset, bitmap_range.size, block_range)
+                .insert_value(range_media_offset, range_size, block_range)
             {
                 Ok(_) => {}
                 Err(error) => {
@@ -326,8 +335,9 @@ impl VhdFile {
                     ));
                 }
             };
-            range_media_offset += bitmap_range.size;
-            range_data_offset += bitmap_range.size;
+            range_media_offset += range_size;
+            range_data_offset += range_size;
+            remaining_size -= range_size;
         }
         Ok(())
     }
@@ -337,7 +347,6 @@ impl VhdFile {
         let read_size: usize = data.len();
         let mut data_offset: usize = 0;
         let mut media_offset: u64 = self.media_offset;
-        let mut block_number: u64 = media_offset / (self.block_size as u64);
 
         while data_offset < read_size {
             if media_offset >= self.media_size {
@@ -347,6 +356,8 @@ impl VhdFile {
                 self.block_tree.get_value(media_offset);
 
             if block_tree_value.is_none() {
+                let block_number: u64 = media_offset / (self.block_size as u64);
+
                 match self.read_block_allocation_entry(block_number) {
                     Ok(_) => {}
                     Err(mut error) => {
@@ -404,7 +415,10 @@ impl VhdFile {
                         &mut data[data_offset..data_end_offset],
                         SeekFrom::Start(media_offset)
                     );
-                    read_count
+                    // Note that the parent can be smaller than the media.
+                    data[data_offset + read_count..data_end_offset].fill(0);
+
+                    range_read_size
                 }
                 VhdBlockRangeType::Sparse => {
                     data[data_offset..data_end_offset].fill(0);
@@ -417,8 +431,6 @@ impl VhdFile {
             }
             data_offset += range_read_count;
             media_offset += range_read_count as u64;
-
-            block_number += 1;
         }
         Ok(data_offset)
     }
diff --git a/keramics-formats/src/vhd/file_footer.rs b/keramics-formats/src/vhd/file_footer.rs
index 993b73d..15e6c07 100644
--- a/keramics-formats/src/vhd/file_footer.rs
+++ b/keramics-formats/src/vhd/file_footer.rs
@@ -92,7 +92,7 @@ impl VhdFileFooter {
             )));
         }
         self.next_offset = bytes_to_u64_be!(data, 16);
-        self.data_size = bytes_to_u64_be!(data, 40);
+        self.data_size = bytes_to_u64_be!(data, 48);
         self.disk_type = bytes_to_u32_be!(data, 60);
         self.identifier = Uuid::from_be_bytes(&data[68..84]);
 
diff --git a/keramics-formats/src/vhd/image.rs b/keramics-formats/src/vhd/image.rs
index 43c4e6c..4465e3c 100644
--- a/keramics-formats/src/vhd/image.rs
+++ b/keramics-formats/src/vhd/image.rs
@@ -90,6 +90,8 @@ impl VhdImage {
                 return Err(error);
             }
         }
+        let mut file_names: Vec<String> = vec![file_name.to_string()];
+
         while file.parent_identifier.is_some() {
             let parent_file_name: String = match file.get_parent_file_name() {
                 Some(file_name) => file_name.to_string(),
@@ -97,6 +99,14 @@ impl VhdImage {
                     return Err(keramics_core::error_trace_new!("Missing parent file name"));
                 }
             };
+            if file_names.contains(&parent_file_name) {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Parent file: {} refers to itself",
+                    parent_file_name
+                )));
+            }
+            file_names.push(parent_file_name.clone());
+
             let path_components: [PathComponent; 1] = [PathComponent::from(&parent_file_name)];
             let result: Option<DataStreamReference> =
                 match file_resolver.get_data_stream(&path_components) {
diff --git a/keramics-formats/src/vhd/sector_bitmap.rs b/keramics-formats/src/vhd/sector_bitmap.rs
index 366ea4d..371dc47 100644
--- a/keramics-formats/src/vhd/sector_bitmap.rs
+++ b/keramics-formats/src/vhd/sector_bitmap.rs
@@ -65,14 +65,22 @@ impl VhdSectorBitmap {
     pub fn read_data(&mut self, data: &[u8]) -> Result<(), ErrorTrace> {
         let mut offset: u64 = 0;
         let mut range_offset: u64 = 0;
-        let mut range_bit_value: u8 = data[0] >> 7;
+        let mut range_bit_value: u8 = match data.first() {
+            Some(byte_value) => byte_value >> 7,
+            None => {
+                return Err(keramics_core::error_trace_new!(
+                    "Unsupported VHD sector bitmap data size"
+                ));
+            }
+        };
 
         for data_offset in 0..data.len() {
             let mut byte_value: u8 = data[data_offset];
 
-            for _ in (0..8).rev() {
-                let bit_value: u8 = byte_value & 0x01;
-                byte_value >>= 1;
+            // Note that the MSB represents the first bit in the bitmap.
+            for _ in 0..8 {
+                let bit_value: u8 = byte_value >> 7;
+                byte_value <<= 1;
 
                 if bit_value != range_bit_value {
                     self.ranges.push(VhdSectorBitmapRange::new(
-- 
2.43.0


From 4c140ba65ec252bb46a35fd4eda177e4b0e50dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:55 +0000
Subject: [PATCH 22/48] fix: read VHDX block table entries, disk types and
 differential chains as the format describes

---
 keramics-formats/src/vhdx/file.rs  | 130 +++++++++++++++++++----------
 keramics-formats/src/vhdx/image.rs |  10 +++
 2 files changed, 95 insertions(+), 45 deletions(-)

diff --git a/keramics-formats/src/vhdx/file.rs b/keramics-formats/src/vhdx/file.rs
index 022ce89..7f0b01c 100644
--- a/keramics-formats/src/vhdx/file.rs
+++ b/keramics-formats/src/vhdx/file.rs
@@ -11,6 +11,7 @@
  * under the License.
  */
 
+use std::cmp::min;
 use std::io::SeekFrom;
 use std::sync::{Arc, RwLock};
 
@@ -155,33 +156,48 @@ impl VhdxFile {
                 return Err(error);
             }
         }
-        let mut primary_image_header: VhdxImageHeader = VhdxImageHeader::new();
-
-        match primary_image_header.read_at_position(data_stream, SeekFrom::Start(65536)) {
-            Ok(_) => {}
-            Err(mut error) => {
-                keramics_core::error_trace_add_frame!(error, "Unable to read primary image header");
-                return Err(error);
+        let mut image_header: Option<VhdxImageHeader> = None;
+        let mut image_header_error: Option<ErrorTrace> = None;
+
+        // Note that one of the image headers can be invalid, e.g. when updating it was interrupted.
+        for image_header_offset in [65536, 2 * 65536] {
+            let mut header: VhdxImageHeader = VhdxImageHeader::new();
+
+            match header.read_at_position(data_stream, SeekFrom::Start(image_header_offset)) {
+                Ok(_) => {
+                    let is_current: bool = match &image_header {
+                        Some(current_header) => {
+                            header.sequence_number >= current_header.sequence_number
+                        }
+                        None => true,
+                    };
+                    if is_current {
+                        image_header = Some(header);
+                    }
+                }
+                Err(mut error) => {
+                    keramics_core::error_trace_add_frame!(
+                        error,
+                        format!(
+                            "Unable to read image header at offset: {} (0x{:08x})",
+                            image_header_offset, image_header_offset
+                        )
+                    );
+                    image_header_error = Some(error);
+                }
             }
         }
-        let mut secondary_image_header: VhdxImageHeader = VhdxImageHeader::new();
-
-        match secondary_image_header.read_at_position(data_stream, SeekFrom::Start(2 * 65536)) {
-            Ok(_) => {}
-            Err(mut error) => {
-                keramics_core::error_trace_add_frame!(
-                    error,
-                    "Unable to read secondary image header"
-                );
-                return Err(error);
+        match image_header {
+            Some(header) => {
+                self.identifier = header.data_write_identifier;
+                self.format_version = header.format_version;
+            }
+            None => {
+                return match image_header_error {
+                    Some(error) => Err(error),
+                    None => Err(keramics_core::error_trace_new!("Missing image header")),
+                };
             }
-        }
-        if primary_image_header.sequence_number > secondary_image_header.sequence_number {
-            self.identifier = primary_image_header.data_write_identifier;
-            self.format_version = primary_image_header.format_version;
-        } else {
-            self.identifier = secondary_image_header.data_write_identifier;
-            self.format_version = secondary_image_header.format_version;
         }
         let mut primary_region_table: VhdxRegionTable = VhdxRegionTable::new();
 
@@ -314,10 +330,9 @@ impl VhdxFile {
 
                 self.block_size = bytes_to_u32_le!(data, 0);
                 self.disk_type = match file_parameters_flags & 0x00000003 {
-                    0 => VhdxDiskType::Fixed,
-                    1 => VhdxDiskType::Dynamic,
-                    2 => VhdxDiskType::Differential,
-                    _ => VhdxDiskType::Unknown,
+                    0 => VhdxDiskType::Dynamic,
+                    1 => VhdxDiskType::Fixed,
+                    _ => VhdxDiskType::Differential,
                 };
                 if self.mediator.debug_output {
                     self.mediator.debug_print(format!(
@@ -570,12 +585,11 @@ impl VhdxFile {
                 return Err(keramics_core::error_trace_new!("Missing data stream"));
             }
         };
-        let table_entry: u64 = if self.disk_type == VhdxDiskType::Fixed {
-            block_number
-        } else {
-            ((block_number / self.entries_per_chunk) * (self.entries_per_chunk + 1))
-                + (block_number % self.entries_per_chunk)
-        };
+        // Note that the table contains an entry of a sector bitmap after every chunk.
+        let table_entry: u64 = ((block_number / self.entries_per_chunk)
+            * (self.entries_per_chunk + 1))
+            + (block_number % self.entries_per_chunk);
+
         let block_allocation_table: &VhdxBlockAllocationTable =
             self.block_allocation_table.as_ref().unwrap();
 
@@ -590,7 +604,7 @@ impl VhdxFile {
                     return Err(error);
                 }
             };
-        if self.disk_type == VhdxDiskType::Differential && entry.block_state != 6 {
+        if self.disk_type == VhdxDiskType::Differential && entry.block_state == 7 {
             match self.read_sector_bitmap(block_number, entry.block_offset) {
                 Ok(_) => {}
                 Err(mut error) => {
@@ -601,7 +615,16 @@ impl VhdxFile {
         } else {
             let block_media_offset: u64 = block_number * (self.block_size as u64);
 
-            let block_range: VhdxBlockRange = if entry.block_state < 6 {
+            let block_range: VhdxBlockRange = if self.disk_type == VhdxDiskType::Differential
+                && entry.block_state == 0
+            {
+                VhdxBlockRange::new(
+                    block_media_offset,
+                    0,
+                    self.block_size as u64,
+                    VhdxBlockRangeType::InParent,
+                )
+            } else if entry.block_state < 6 {
                 VhdxBlockRange::new(
                     block_media_offset,
                     0,
@@ -662,6 +685,12 @@ impl VhdxFile {
                     return Err(error);
                 }
             };
+        if entry.block_state != 6 {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Unsupported sector bitmap block state: {}",
+                entry.block_state
+            )));
+        }
         let sector_bitmap_offset: u64 = entry.block_offset
             + ((block_number % self.entries_per_chunk) * self.sector_bitmap_size as u64);
 
@@ -678,25 +707,33 @@ impl VhdxFile {
         let mut range_media_offset: u64 = block_number * (self.block_size as u64);
         let mut range_data_offset: u64 = block_offset;
 
+        let mut remaining_size: u64 = self.block_size as u64;
+
         for bitmap_range in sector_bitmap.ranges.iter() {
+            // Note that the sector bitmap can be larger than the number of sectors in the block.
+            let range_size: u64 = min(bitmap_range.size, remaining_size);
+
+            if range_size == 0 {
+                break;
+            }
             let block_range: VhdxBlockRange = if bitmap_range.is_set {
                 VhdxBlockRange::new(
                     range_media_offset,
                     range_data_offset,
-                    bitmap_range.size,
+                    range_size,
                     VhdxBlockRangeType::InFile,
                 )
             } else {
                 VhdxBlockRange::new(
                     range_media_offset,
                     0,
-                    bitmap_range.size,
+                    range_size,
                     VhdxBlockRangeType::InParent,
                 )
             };
             match self
                 .block_tree
-                .insert_value(range_media_offset, bitmap_range.size, block_range)
+                .insert_value(range_media_offset, range_size, block_range)
             {
                 Ok(_) => {}
                 Err(error) => {
@@ -706,8 +743,9 @@ impl VhdxFile {
                     ));
                 }
             };
-            range_media_offset += bitmap_range.size;
-            range_data_offset += bitmap_range.size;
+            range_media_offset += range_size;
+            range_data_offset += range_size;
+            remaining_size -= range_size;
         }
         Ok(())
     }
@@ -717,7 +755,6 @@ impl VhdxFile {
         let read_size: usize = data.len();
         let mut data_offset: usize = 0;
         let mut media_offset: u64 = self.media_offset;
-        let mut block_number: u64 = media_offset / (self.block_size as u64);
 
         while data_offset < read_size {
             if media_offset >= self.media_size {
@@ -727,6 +764,8 @@ impl VhdxFile {
                 self.block_tree.get_value(media_offset);
 
             if block_tree_value.is_none() {
+                let block_number: u64 = media_offset / (self.block_size as u64);
+
                 match self.read_block_allocation_entry(block_number) {
                     Ok(_) => {}
                     Err(mut error) => {
@@ -784,7 +823,10 @@ impl VhdxFile {
                         &mut data[data_offset..data_end_offset],
                         SeekFrom::Start(media_offset)
                     );
-                    read_count
+                    // Note that the parent can be smaller than the media.
+                    data[data_offset + read_count..data_end_offset].fill(0);
+
+                    range_read_size
                 }
                 VhdxBlockRangeType::Sparse => {
                     data[data_offset..data_end_offset].fill(0);
@@ -797,8 +839,6 @@ impl VhdxFile {
             }
             data_offset += range_read_count;
             media_offset += range_read_count as u64;
-
-            block_number += 1;
         }
         Ok(data_offset)
     }
diff --git a/keramics-formats/src/vhdx/image.rs b/keramics-formats/src/vhdx/image.rs
index f0a9fd3..e4302cb 100644
--- a/keramics-formats/src/vhdx/image.rs
+++ b/keramics-formats/src/vhdx/image.rs
@@ -90,6 +90,8 @@ impl VhdxImage {
                 return Err(error);
             }
         }
+        let mut file_names: Vec<String> = vec![file_name.to_string()];
+
         while file.parent_identifier.is_some() {
             let parent_file_name: String = match file.get_parent_file_name() {
                 Some(file_name) => file_name.to_string(),
@@ -97,6 +99,14 @@ impl VhdxImage {
                     return Err(keramics_core::error_trace_new!("Missing parent file name"));
                 }
             };
+            if file_names.contains(&parent_file_name) {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Parent file: {} refers to itself",
+                    parent_file_name
+                )));
+            }
+            file_names.push(parent_file_name.clone());
+
             let path_components: [PathComponent; 1] = [PathComponent::from(&parent_file_name)];
             let result: Option<DataStreamReference> =
                 match file_resolver.get_data_stream(&path_components) {
-- 
2.43.0


From 9e91cd41bc3b42e0901614e274d13f4b7f94ee31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:12 +0000
Subject: [PATCH 23/48] fix: check UDIF block ranges against the data they name
 and keep sparse ranges free of it

---
 keramics-formats/src/udif/file.rs | 93 +++++++++++++++++++++----------
 1 file changed, 64 insertions(+), 29 deletions(-)

diff --git a/keramics-formats/src/udif/file.rs b/keramics-formats/src/udif/file.rs
index b37fef4..6f25fca 100644
--- a/keramics-formats/src/udif/file.rs
+++ b/keramics-formats/src/udif/file.rs
@@ -26,7 +26,7 @@ use super::block_table::UdifBlockTable;
 use super::enums::UdifCompressionMethod;
 use super::file_footer::UdifFileFooter;
 
-const MAXIMUM_NUMBER_OF_SECTORS: u64 = u64::MAX / 512;
+const MAXIMUM_NUMBER_OF_SECTORS: u64 = (i64::MAX as u64) / 512;
 
 /// Universal Disk Image Format (UDIF) file.
 pub struct UdifFile {
@@ -108,7 +108,17 @@ impl UdifFile {
         }
         self.bytes_per_sector = 512;
 
-        let data_fork_end_offset: u64 = file_footer.data_fork_offset + file_footer.data_fork_size;
+        let data_fork_end_offset: u64 = match file_footer
+            .data_fork_offset
+            .checked_add(file_footer.data_fork_size)
+        {
+            Some(data_fork_end_offset) => data_fork_end_offset,
+            None => {
+                return Err(keramics_core::error_trace_new!(
+                    "Invalid data fork size value out of bounds"
+                ));
+            }
+        };
 
         if file_footer.plist_size == 0 {
             self.data_fork_offset = file_footer.data_fork_offset;
@@ -229,28 +239,32 @@ impl UdifFile {
                         )));
                     }
                     if block_table_entry.number_of_sectors == 0
-                        || block_table_entry.number_of_sectors > MAXIMUM_NUMBER_OF_SECTORS
+                        || block_table_entry.number_of_sectors
+                            > MAXIMUM_NUMBER_OF_SECTORS - media_sector
                     {
                         return Err(keramics_core::error_trace_new!(format!(
                             "Unsupported block table: {} entry: {} number of sectors value out of bounds",
                             table_index, entry_index,
                         )));
                     }
-                    if block_table_entry.data_offset < file_footer.data_fork_offset
-                        || block_table_entry.data_offset >= data_fork_end_offset
-                    {
-                        return Err(keramics_core::error_trace_new!(format!(
-                            "Unsupported block table: {} entry: {} data offset value out of bounds",
-                            table_index, entry_index,
-                        )));
-                    }
-                    if block_table_entry.data_size
-                        > data_fork_end_offset - block_table_entry.data_offset
-                    {
-                        return Err(keramics_core::error_trace_new!(format!(
-                            "Unsupported block table: {} entry: {} data size value out of bounds",
-                            table_index, entry_index,
-                        )));
+                    // Sparse entries have no data.
+                    if !matches!(block_table_entry.entry_type, 0x00000000 | 0x00000002) {
+                        if block_table_entry.data_offset < file_footer.data_fork_offset
+                            || block_table_entry.data_offset >= data_fork_end_offset
+                        {
+                            return Err(keramics_core::error_trace_new!(format!(
+                                "Unsupported block table: {} entry: {} data offset value out of bounds",
+                                table_index, entry_index,
+                            )));
+                        }
+                        if block_table_entry.data_size
+                            > data_fork_end_offset - block_table_entry.data_offset
+                        {
+                            return Err(keramics_core::error_trace_new!(format!(
+                                "Unsupported block table: {} entry: {} data size value out of bounds",
+                                table_index, entry_index,
+                            )));
+                        }
                     }
                     let media_size: u64 =
                         block_table_entry.number_of_sectors * self.bytes_per_sector as u64;
@@ -263,13 +277,21 @@ impl UdifFile {
                             0,
                             UdifBlockRangeType::Sparse,
                         ),
-                        0x00000001 => UdifBlockRange::new(
-                            media_offset,
-                            block_table_entry.data_offset,
-                            media_size,
-                            0,
-                            UdifBlockRangeType::InFile,
-                        ),
+                        0x00000001 => {
+                            if block_table_entry.data_size < media_size {
+                                return Err(keramics_core::error_trace_new!(format!(
+                                    "Unsupported block table: {} entry: {} data size value too small",
+                                    table_index, entry_index,
+                                )));
+                            }
+                            UdifBlockRange::new(
+                                media_offset,
+                                block_table_entry.data_offset,
+                                media_size,
+                                0,
+                                UdifBlockRangeType::InFile,
+                            )
+                        }
                         0x80000004..0x80000008 => {
                             if block_table_entry.number_of_sectors > 2048 {
                                 return Err(keramics_core::error_trace_new!(format!(
@@ -378,7 +400,7 @@ impl UdifFile {
                     let range_data_offset: usize = range_relative_offset as usize;
                     let range_data_end_offset: usize = range_data_offset + range_read_size;
 
-                    if !self.block_cache.contains(&block_range.data_offset) {
+                    if !self.block_cache.contains(&block_range.media_offset) {
                         let mut data: Vec<u8> = vec![0; block_range.size as usize];
 
                         match self.read_compressed_block(block_range, &mut data) {
@@ -391,9 +413,11 @@ impl UdifFile {
                                 return Err(error);
                             }
                         }
-                        self.block_cache.insert(block_range.data_offset, data);
+                        self.block_cache.insert(block_range.media_offset, data);
                     }
-                    let range_data: &Vec<u8> = match self.block_cache.get(&block_range.data_offset)
+                    let range_data: &Vec<u8> = match self
+                        .block_cache
+                        .get(&block_range.media_offset)
                     {
                         Some(data) => data,
                         None => {
@@ -462,7 +486,7 @@ impl UdifFile {
             ));
             self.mediator.debug_print_data(&compressed_data, true);
         }
-        match self.compression_method {
+        let uncompressed_data_size: usize = match self.compression_method {
             UdifCompressionMethod::Adc => {
                 let mut adc_context: AdcContext = AdcContext::new();
 
@@ -476,6 +500,7 @@ impl UdifFile {
                         return Err(error);
                     }
                 }
+                adc_context.uncompressed_data_size
             }
             UdifCompressionMethod::Bzip2 => {
                 let mut bzip2_context: Bzip2Context = Bzip2Context::new();
@@ -490,6 +515,7 @@ impl UdifFile {
                         return Err(error);
                     }
                 }
+                bzip2_context.uncompressed_data_size
             }
             UdifCompressionMethod::Lzfse => {
                 let mut lzfse_context: LzfseContext = LzfseContext::new();
@@ -504,6 +530,7 @@ impl UdifFile {
                         return Err(error);
                     }
                 }
+                lzfse_context.uncompressed_data_size
             }
             UdifCompressionMethod::Lzma => {
                 // TODO: add support for UdifCompressionMethod::Lzma,
@@ -522,6 +549,7 @@ impl UdifFile {
                         return Err(error);
                     }
                 }
+                zlib_context.uncompressed_data_size
             }
             _ => {
                 return Err(keramics_core::error_trace_new!(
@@ -529,6 +557,13 @@ impl UdifFile {
                 ));
             }
         };
+        if uncompressed_data_size != data.len() {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid uncompressed data size: {} value does not match block size: {}",
+                uncompressed_data_size,
+                data.len()
+            )));
+        }
         Ok(())
     }
 }
-- 
2.43.0


From ced6613291f63f43dce21b52efa50787a58e8ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:40 +0000
Subject: [PATCH 24/48] fix: read a partial sparse image band from where the
 read stopped

---
 keramics-formats/src/sparseimage/file.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/keramics-formats/src/sparseimage/file.rs b/keramics-formats/src/sparseimage/file.rs
index 5a23feb..4b9ba97 100644
--- a/keramics-formats/src/sparseimage/file.rs
+++ b/keramics-formats/src/sparseimage/file.rs
@@ -198,15 +198,14 @@ impl SparseImageFile {
         let read_size: usize = data.len();
         let mut data_offset: usize = 0;
         let mut media_offset: u64 = self.media_offset;
-        let block_number: u64 = media_offset / (self.block_size as u64);
-        let block_offset: u64 = block_number * (self.block_size as u64);
-        let mut range_relative_offset: u64 = media_offset - block_offset;
-        let mut range_remainder_size: u64 = (self.block_size as u64) - range_relative_offset;
 
         while data_offset < read_size {
             if media_offset >= self.media_size {
                 break;
             }
+            let range_relative_offset: u64 = media_offset % (self.block_size as u64);
+            let range_remainder_size: u64 = (self.block_size as u64) - range_relative_offset;
+
             let mut range_read_size: usize = read_size - data_offset;
 
             if (range_read_size as u64) > range_remainder_size {
@@ -243,9 +242,6 @@ impl SparseImageFile {
             }
             data_offset += range_read_count;
             media_offset += range_read_count as u64;
-
-            range_relative_offset = 0;
-            range_remainder_size = self.block_size as u64;
         }
         Ok(data_offset)
     }
-- 
2.43.0


From db64e747f613858f997866a98af2e972182c1d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:40 +0000
Subject: [PATCH 25/48] fix: read missing and short sparse bundle band files as
 sparse

---
 keramics-formats/src/sparsebundle/image.rs | 39 ++++++++++++----------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/keramics-formats/src/sparsebundle/image.rs b/keramics-formats/src/sparsebundle/image.rs
index 107ab14..0db7ccd 100644
--- a/keramics-formats/src/sparsebundle/image.rs
+++ b/keramics-formats/src/sparsebundle/image.rs
@@ -230,15 +230,6 @@ impl SparseBundleImage {
                         return Err(error);
                     }
                 };
-            let data_stream: DataStreamReference = match result {
-                Some(data_stream) => data_stream,
-                None => {
-                    return Err(keramics_core::error_trace_new!(format!(
-                        "No such bands file: {}",
-                        band_file_name
-                    )));
-                }
-            };
             let mut range_read_size: usize = read_size - data_offset;
 
             if (range_read_size as u64) > range_remainder_size {
@@ -246,16 +237,28 @@ impl SparseBundleImage {
             }
             let data_end_offset: usize = data_offset + range_read_size;
 
-            let read_count: usize = keramics_core::data_stream_read_at_position!(
-                data_stream,
-                &mut data[data_offset..data_end_offset],
-                SeekFrom::Start(range_relative_offset)
-            );
-            if read_count == 0 {
-                break;
+            // A bands file that does not exist or is smaller than the band size is sparse.
+            let mut range_data_offset: usize = data_offset;
+
+            if let Some(data_stream) = result {
+                while range_data_offset < data_end_offset {
+                    let read_count: usize = keramics_core::data_stream_read_at_position!(
+                        data_stream,
+                        &mut data[range_data_offset..data_end_offset],
+                        SeekFrom::Start(
+                            range_relative_offset + ((range_data_offset - data_offset) as u64)
+                        )
+                    );
+                    if read_count == 0 {
+                        break;
+                    }
+                    range_data_offset += read_count;
+                }
             }
-            data_offset += read_count;
-            media_offset += read_count as u64;
+            data[range_data_offset..data_end_offset].fill(0);
+
+            data_offset = data_end_offset;
+            media_offset += range_read_size as u64;
 
             block_number += 1;
             range_relative_offset = 0;
-- 
2.43.0


From 168009caa92c552bc532c6ec3d1da58e57f8336f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:52 +0000
Subject: [PATCH 26/48] fix: reopen EWF segment files, read SMART tables and
 long headers and check chunks against the sections that hold them

---
 keramics-formats/src/ewf/error2.rs         |   7 +
 keramics-formats/src/ewf/file.rs           |   7 +-
 keramics-formats/src/ewf/header.rs         |  16 +-
 keramics-formats/src/ewf/header2.rs        |  24 ++-
 keramics-formats/src/ewf/image.rs          | 232 +++++++++++++++------
 keramics-formats/src/ewf/object_storage.rs |   6 +-
 keramics-formats/src/ewf/table.rs          |  78 ++++---
 keramics-formats/src/ewf/volume.rs         |   6 +-
 8 files changed, 263 insertions(+), 113 deletions(-)

diff --git a/keramics-formats/src/ewf/error2.rs b/keramics-formats/src/ewf/error2.rs
index cc4e9eb..5a45308 100644
--- a/keramics-formats/src/ewf/error2.rs
+++ b/keramics-formats/src/ewf/error2.rs
@@ -61,6 +61,13 @@ impl EwfError2 {
         let footer_offset: usize = 520 + (error2_header.number_of_entries as usize * 8);
         let footer_end_offset: usize = footer_offset + 4;
 
+        if footer_end_offset > data.len() {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Unsupported number of entries: {} value out of bounds",
+                error2_header.number_of_entries
+            )));
+        }
+
         let mut error2_footer: EwfError2Footer = EwfError2Footer::new();
 
         if self.mediator.debug_output {
diff --git a/keramics-formats/src/ewf/file.rs b/keramics-formats/src/ewf/file.rs
index 8d7edb2..d0b85c9 100644
--- a/keramics-formats/src/ewf/file.rs
+++ b/keramics-formats/src/ewf/file.rs
@@ -89,6 +89,7 @@ impl EwfFile {
             }
         }
         let mut file_offset: u64 = 13;
+        let mut is_last_section: bool = false;
 
         while file_offset < file_size {
             let mut section_header: EwfSectionHeader = EwfSectionHeader::new();
@@ -107,7 +108,6 @@ impl EwfFile {
                 }
             }
 
-            let mut is_last_section: bool = false;
             let mut section_size: u64 = section_header.size;
 
             if section_header.section_type == EWF_SECTION_TYPE_DONE
@@ -157,6 +157,11 @@ impl EwfFile {
                 break;
             }
         }
+        if !is_last_section {
+            return Err(keramics_core::error_trace_new!(
+                "Missing done or next section"
+            ));
+        }
         if file_offset != file_size {
             return Err(keramics_core::error_trace_new!(
                 "Unsupported trailing data after last section header"
diff --git a/keramics-formats/src/ewf/header.rs b/keramics-formats/src/ewf/header.rs
index ca8ccfc..0712d7f 100644
--- a/keramics-formats/src/ewf/header.rs
+++ b/keramics-formats/src/ewf/header.rs
@@ -11,6 +11,7 @@
  * under the License.
  */
 
+use std::cmp::min;
 use std::collections::HashMap;
 use std::io::SeekFrom;
 
@@ -42,11 +43,11 @@ impl EwfHeader {
         data: &[u8],
         header_values: &mut HashMap<EwfHeaderValueType, EwfHeaderValue>,
     ) -> Result<(), ErrorTrace> {
-        let data_size: usize = data.len();
-
-        // On average the uncompressed header will be more than twice as large
-        // as the compressed header.
-        let mut header_data: Vec<u8> = vec![0; data_size * 4];
+        // The header can contain large values that compress well. Note that
+        // the uncompressed data cannot be more than 1032 times as large as the
+        // compressed data and that 67108864 is an arbitrary chosen limit.
+        let header_data_size: usize = min(data.len() * 1032, 67108864);
+        let mut header_data: Vec<u8> = vec![0; header_data_size];
 
         let mut zlib_context: ZlibContext = ZlibContext::new();
 
@@ -62,8 +63,11 @@ impl EwfHeader {
                 "Uncompressed header data of size: {}\n",
                 zlib_context.uncompressed_data_size,
             ));
-            self.mediator.debug_print_data(&header_data, true);
+            self.mediator
+                .debug_print_data(&header_data[0..zlib_context.uncompressed_data_size], true);
         }
+        header_data.truncate(zlib_context.uncompressed_data_size);
+
         let mut object_storage: EwfByteObjectStorage = EwfByteObjectStorage::new(&header_data);
 
         let number_of_categories: u8 = match object_storage.next_line() {
diff --git a/keramics-formats/src/ewf/header2.rs b/keramics-formats/src/ewf/header2.rs
index a8530d2..542ee1e 100644
--- a/keramics-formats/src/ewf/header2.rs
+++ b/keramics-formats/src/ewf/header2.rs
@@ -11,6 +11,7 @@
  * under the License.
  */
 
+use std::cmp::min;
 use std::collections::HashMap;
 use std::io::SeekFrom;
 
@@ -43,12 +44,11 @@ impl EwfHeader2 {
         data: &[u8],
         header_values: &mut HashMap<EwfHeaderValueType, EwfHeaderValue>,
     ) -> Result<(), ErrorTrace> {
-        let data_size: usize = data.len();
-
-        // On average the uncompressed header will be more than twice as large
-        // as the compressed header. Note that the uncompressed header size
-        // should be a multitude of 2 bytes.
-        let mut header2_data: Vec<u8> = vec![0; data_size * 4];
+        // The header can contain large values that compress well. Note that
+        // the uncompressed data cannot be more than 1032 times as large as the
+        // compressed data and that 67108864 is an arbitrary chosen limit.
+        let header2_data_size: usize = min(data.len() * 1032, 67108864);
+        let mut header2_data: Vec<u8> = vec![0; header2_data_size];
 
         let mut zlib_context: ZlibContext = ZlibContext::new();
 
@@ -64,17 +64,21 @@ impl EwfHeader2 {
                 "Uncompressed header2 data of size: {}\n",
                 zlib_context.uncompressed_data_size,
             ));
-            self.mediator.debug_print_data(&header2_data, true);
+            self.mediator
+                .debug_print_data(&header2_data[0..zlib_context.uncompressed_data_size], true);
         }
+        // Note that the uncompressed header size should be a multitude of 2 bytes.
+        header2_data.truncate(zlib_context.uncompressed_data_size & !1);
+
         let mut header2_data_offset: usize = 0;
 
-        let byte_order: ByteOrder = match &header2_data[0..2] {
-            [0xfe, 0xff] => {
+        let byte_order: ByteOrder = match header2_data.as_slice() {
+            [0xfe, 0xff, ..] => {
                 header2_data_offset += 2;
 
                 ByteOrder::BigEndian
             }
-            [0xff, 0xfe] => {
+            [0xff, 0xfe, ..] => {
                 header2_data_offset += 2;
 
                 ByteOrder::LittleEndian
diff --git a/keramics-formats/src/ewf/image.rs b/keramics-formats/src/ewf/image.rs
index 0ee6d0c..62f06e6 100644
--- a/keramics-formats/src/ewf/image.rs
+++ b/keramics-formats/src/ewf/image.rs
@@ -11,6 +11,7 @@
  * under the License.
  */
 
+use std::cmp::min;
 use std::collections::HashMap;
 use std::io::SeekFrom;
 
@@ -51,6 +52,12 @@ pub struct EwfImage {
     /// Segment file set identifier.
     pub set_identifier: Uuid,
 
+    /// Segment file name without extension.
+    segment_file_name: String,
+
+    /// Segment file naming schema.
+    naming_schema: EwfNamingSchema,
+
     /// Segment file cache.
     segment_file_cache: LruCache<u16, EwfFile>,
 
@@ -64,11 +71,14 @@ pub struct EwfImage {
     pub bytes_per_sector: u32,
 
     /// Number of sectors.
-    pub number_of_sectors: u32,
+    pub number_of_sectors: u64,
 
     /// Block (or chunk) size.
     block_size: u32,
 
+    /// Value to indicate the table entries are followed by a footer.
+    has_table_footer: bool,
+
     /// Block tree.
     block_tree: BlockTree<EwfBlockRange>,
 
@@ -104,12 +114,15 @@ impl EwfImage {
             mediator: Mediator::current(),
             file_resolver: FileResolverReference::new(Box::new(FakeFileResolver::new())),
             set_identifier: Uuid::new(),
+            segment_file_name: String::new(),
+            naming_schema: EwfNamingSchema::E01UpperCase,
             segment_file_cache: LruCache::new(16),
             number_of_chunks: 0,
             sectors_per_chunk: 0,
             bytes_per_sector: 0,
             number_of_sectors: 0,
             block_size: 0,
+            has_table_footer: true,
             block_tree: BlockTree::<EwfBlockRange>::new(0, 0, 0),
             block_cache: LruCache::new(64),
             error_granularity: 0,
@@ -182,6 +195,67 @@ impl EwfImage {
         Ok(segment_extension)
     }
 
+    /// Opens a segment file.
+    fn open_segment_file(
+        &self,
+        file_resolver: &FileResolverReference,
+        segment_number: u16,
+    ) -> Result<(EwfFile, String, DataStreamReference), ErrorTrace> {
+        let segment_extension: String =
+            match self.get_segment_file_extension(segment_number, &self.naming_schema) {
+                Ok(extension) => extension,
+                Err(mut error) => {
+                    keramics_core::error_trace_add_frame!(
+                        error,
+                        "Unable to determine segment file extension"
+                    );
+                    return Err(error);
+                }
+            };
+        let segment_file_name: String = format!("{}.{}", self.segment_file_name, segment_extension);
+
+        let path_components: [PathComponent; 1] = [PathComponent::from(&segment_file_name)];
+        let result: Option<DataStreamReference> =
+            match file_resolver.get_data_stream(&path_components) {
+                Ok(result) => result,
+                Err(mut error) => {
+                    keramics_core::error_trace_add_frame!(
+                        error,
+                        format!("Unable to open segment file: {}", segment_file_name)
+                    );
+                    return Err(error);
+                }
+            };
+        let data_stream: DataStreamReference = match result {
+            Some(data_stream) => data_stream,
+            None => {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "No such segment file: {}",
+                    segment_file_name
+                )));
+            }
+        };
+        let mut segment_file: EwfFile = EwfFile::new();
+
+        match segment_file.read_data_stream(&data_stream) {
+            Ok(_) => {}
+            Err(mut error) => {
+                keramics_core::error_trace_add_frame!(
+                    error,
+                    format!("Unable to open segment file: {}", segment_file_name)
+                );
+                return Err(error);
+            }
+        }
+        if segment_file.segment_number != segment_number {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Unsupported segment number: {} in segment file: {}",
+                segment_file.segment_number, segment_file_name
+            )));
+        }
+        Ok((segment_file, segment_file_name, data_stream))
+    }
+
     /// Opens a storage media image.
     pub fn open(
         &mut self,
@@ -225,8 +299,20 @@ impl EwfImage {
                 .segment_file_cache
                 .contains(&block_range.segment_number)
             {
-                let file: EwfFile = EwfFile::new();
-
+                let (file, _, _) =
+                    match self.open_segment_file(&self.file_resolver, block_range.segment_number) {
+                        Ok(result) => result,
+                        Err(mut error) => {
+                            keramics_core::error_trace_add_frame!(
+                                error,
+                                format!(
+                                    "Unable to open segment file: {}",
+                                    block_range.segment_number
+                                )
+                            );
+                            return Err(error);
+                        }
+                    };
                 self.segment_file_cache
                     .insert(block_range.segment_number, file);
             }
@@ -243,6 +329,11 @@ impl EwfImage {
             let range_relative_offset: u64 = media_offset - block_range.media_offset;
             let range_remainder_size: u64 = (self.block_size as u64) - range_relative_offset;
 
+            // The last chunk can contain less data.
+            let range_data_size: u64 = min(
+                self.block_size as u64,
+                self.media_size - block_range.media_offset,
+            );
             let mut range_read_size: usize = read_size - data_offset;
 
             if (range_read_size as u64) > range_remainder_size {
@@ -254,7 +345,7 @@ impl EwfImage {
                     let range_data_offset: usize = range_relative_offset as usize;
                     let range_data_end_offset: usize = range_data_offset + range_read_size;
 
-                    if !self.block_cache.contains(&block_range.data_offset) {
+                    if !self.block_cache.contains(&block_range.media_offset) {
                         let mut compressed_data: Vec<u8> = vec![0; block_range.data_size as usize];
 
                         match segment_file.read_exact_at_position(
@@ -298,9 +389,16 @@ impl EwfImage {
                                 return Err(error);
                             }
                         }
-                        self.block_cache.insert(block_range.data_offset, block_data);
+                        if (zlib_context.uncompressed_data_size as u64) < range_data_size {
+                            return Err(keramics_core::error_trace_new!(format!(
+                                "Unsupported uncompressed chunk data size: {} value out of bounds",
+                                zlib_context.uncompressed_data_size
+                            )));
+                        }
+                        self.block_cache
+                            .insert(block_range.media_offset, block_data);
                     }
-                    let range_data: &Vec<u8> = match self.block_cache.get(&block_range.data_offset)
+                    let range_data: &Vec<u8> = match self.block_cache.get(&block_range.media_offset)
                     {
                         Some(data) => data,
                         None => {
@@ -315,6 +413,12 @@ impl EwfImage {
                     range_read_size
                 }
                 EwfBlockRangeType::InFile => {
+                    if (block_range.data_size as u64) < range_data_size {
+                        return Err(keramics_core::error_trace_new!(format!(
+                            "Unsupported chunk data size: {} value out of bounds",
+                            block_range.data_size
+                        )));
+                    }
                     // TODO: read full chunk
                     let chunk_offset: u64 = block_range.data_offset + range_relative_offset;
 
@@ -535,6 +639,7 @@ impl EwfImage {
                 }
                 &EWF_SECTION_TYPE_TABLE2 => {
                     let mut table2: EwfTable = EwfTable::new();
+                    table2.has_footer = self.has_table_footer;
 
                     match table2.read_at_position(
                         &data_stream,
@@ -568,7 +673,7 @@ impl EwfImage {
         file_name: &PathComponent,
     ) -> Result<(), ErrorTrace> {
         // TODO: add function that retrieves both file stem and extension
-        let name: String = match file_name.file_stem() {
+        self.segment_file_name = match file_name.file_stem() {
             Some(file_stem) => file_stem.to_string(),
             None => {
                 return Err(keramics_core::error_trace_new!(format!(
@@ -586,7 +691,7 @@ impl EwfImage {
                 )));
             }
         };
-        let naming_schema: EwfNamingSchema = match extension.as_str() {
+        self.naming_schema = match extension.as_str() {
             "E01" => EwfNamingSchema::E01UpperCase,
             "S01" => EwfNamingSchema::S01UpperCase,
             "e01" => EwfNamingSchema::E01LowerCase,
@@ -603,58 +708,17 @@ impl EwfImage {
         let mut segment_number: u16 = 1;
 
         while !last_segment_file {
-            let segment_extension: String =
-                match self.get_segment_file_extension(segment_number, &naming_schema) {
-                    Ok(extension) => extension,
-                    Err(mut error) => {
-                        keramics_core::error_trace_add_frame!(
-                            error,
-                            "Unable to determine segment file extension"
-                        );
-                        return Err(error);
-                    }
-                };
-            let segment_file_name: String = format!("{}.{}", name, segment_extension);
-
-            let path_components: [PathComponent; 1] = [PathComponent::from(&segment_file_name)];
-            let result: Option<DataStreamReference> =
-                match file_resolver.get_data_stream(&path_components) {
+            let (segment_file, segment_file_name, data_stream) =
+                match self.open_segment_file(file_resolver, segment_number) {
                     Ok(result) => result,
                     Err(mut error) => {
                         keramics_core::error_trace_add_frame!(
                             error,
-                            format!("Unable to open segment file: {}", segment_file_name)
+                            format!("Unable to open segment file: {}", segment_number)
                         );
                         return Err(error);
                     }
                 };
-            let data_stream: DataStreamReference = match result {
-                Some(data_stream) => data_stream,
-                None => {
-                    return Err(keramics_core::error_trace_new!(format!(
-                        "No such segment file: {}",
-                        segment_file_name
-                    )));
-                }
-            };
-            let mut segment_file: EwfFile = EwfFile::new();
-
-            match segment_file.read_data_stream(&data_stream) {
-                Ok(_) => {}
-                Err(mut error) => {
-                    keramics_core::error_trace_add_frame!(
-                        error,
-                        format!("Unable to open segment file: {}", segment_file_name)
-                    );
-                    return Err(error);
-                }
-            }
-            if segment_file.segment_number != segment_number {
-                return Err(keramics_core::error_trace_new!(format!(
-                    "Unsupported segment number: {} in segment file: {}",
-                    segment_file.segment_number, segment_file_name
-                )));
-            }
             match self.read_sections(
                 &segment_file,
                 &segment_file_name,
@@ -693,6 +757,7 @@ impl EwfImage {
         let mut safe_block_media_offset: u64 = *block_media_offset;
 
         let mut table: EwfTable = EwfTable::new();
+        table.has_footer = self.has_table_footer;
 
         match table.read_at_position(
             &data_stream,
@@ -710,6 +775,15 @@ impl EwfImage {
         if number_of_entries == 0 {
             return Err(keramics_core::error_trace_new!("Missing table entries"));
         }
+        // The chunks are stored before the end of the section that contains them.
+        let chunk_data_base_offset: u64 = table.base_offset;
+
+        if chunk_data_base_offset > i64::MAX as u64 {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Unsupported table base offset: {} value out of bounds",
+                chunk_data_base_offset
+            )));
+        }
         let mut table_entry: &EwfTableEntry = &table.entries[0];
         let mut chunk_data_offset_overflow: bool = false;
 
@@ -749,7 +823,10 @@ impl EwfImage {
                     ));
                 }
                 // TODO: handle corrupted table entry
-                todo!();
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Unsupported table entry: {} current offset: {} larger than next offset: {}",
+                    table_entry_index, chunk_data_offset, next_chunk_data_offset
+                )));
             };
             let block_range_type: EwfBlockRangeType = if chunk_is_compressed {
                 EwfBlockRangeType::Compressed
@@ -759,7 +836,7 @@ impl EwfImage {
             let block_range: EwfBlockRange = EwfBlockRange::new(
                 safe_block_media_offset,
                 segment_file.segment_number,
-                table.base_offset + (chunk_data_offset as u64),
+                chunk_data_base_offset + (chunk_data_offset as u64),
                 chunk_data_size,
                 block_range_type,
             );
@@ -807,7 +884,7 @@ impl EwfImage {
         // is where it starts. Hence the size of the last chunk is determined
         // by subtracting the last offset from the offset of the next section.
 
-        let last_chunk_data_offset: u64 = table.base_offset + (chunk_data_offset as u64);
+        let last_chunk_data_offset: u64 = chunk_data_base_offset + (chunk_data_offset as u64);
 
         let last_chunk_data_end_offset: u64 = match last_sectors_section_header {
             // The chunks are stored in the sectors section.
@@ -816,7 +893,16 @@ impl EwfImage {
             None => section_header.next_offset,
         };
         let last_chunk_data_size: u32 =
-            (last_chunk_data_end_offset - last_chunk_data_offset) as u32;
+            match last_chunk_data_end_offset.checked_sub(last_chunk_data_offset) {
+                // The data of the last chunk can be followed by other data.
+                Some(data_size) => min(data_size, u32::MAX as u64) as u32,
+                None => {
+                    return Err(keramics_core::error_trace_new!(format!(
+                        "Unsupported last chunk data offset: {} (0x{:08x}) value out of bounds",
+                        last_chunk_data_offset, last_chunk_data_offset
+                    )));
+                }
+            };
 
         let block_range_type: EwfBlockRangeType = if chunk_is_compressed {
             EwfBlockRangeType::Compressed
@@ -883,7 +969,8 @@ impl EwfImage {
                 self.number_of_chunks = volume.number_of_chunks;
                 self.sectors_per_chunk = volume.sectors_per_chunk;
                 self.bytes_per_sector = volume.bytes_per_sector;
-                self.number_of_sectors = volume.number_of_sectors;
+                self.number_of_sectors = volume.number_of_sectors as u64;
+                self.has_table_footer = false;
             }
             1128 => {
                 let mut volume: EwfE01Volume = EwfE01Volume::new();
@@ -918,16 +1005,33 @@ impl EwfImage {
                 )));
             }
         }
-        self.block_size = self.sectors_per_chunk * self.bytes_per_sector;
-        self.media_size = (self.number_of_sectors as u64) * (self.bytes_per_sector as u64);
+        // Note that 268435456 is an arbitrary chosen limit.
+        self.block_size = match self.sectors_per_chunk.checked_mul(self.bytes_per_sector) {
+            Some(block_size) if block_size > 0 && block_size <= 268435456 => block_size,
+            _ => {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Unsupported number of sectors per chunk: {} or bytes per sector: {} value out of bounds",
+                    self.sectors_per_chunk, self.bytes_per_sector
+                )));
+            }
+        };
+        self.media_size = match self
+            .number_of_sectors
+            .checked_mul(self.bytes_per_sector as u64)
+        {
+            Some(media_size) => media_size,
+            None => {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Unsupported number of sectors: {} value out of bounds",
+                    self.number_of_sectors
+                )));
+            }
+        };
 
         let block_tree_data_size: u64 = (self.number_of_chunks as u64) * (self.block_size as u64);
 
-        self.block_tree = BlockTree::<EwfBlockRange>::new(
-            block_tree_data_size,
-            self.sectors_per_chunk as u64,
-            self.bytes_per_sector as u64,
-        );
+        self.block_tree =
+            BlockTree::<EwfBlockRange>::new(block_tree_data_size, 256, self.block_size as u64);
         Ok(())
     }
 }
diff --git a/keramics-formats/src/ewf/object_storage.rs b/keramics-formats/src/ewf/object_storage.rs
index a1c227a..d2eb1cd 100644
--- a/keramics-formats/src/ewf/object_storage.rs
+++ b/keramics-formats/src/ewf/object_storage.rs
@@ -129,12 +129,12 @@ impl<'a> EwfUtf16ObjectStorage<'a> {
         let mut timestamp: i32 = 0;
 
         for value_16bit in value.iter() {
-            timestamp *= 10;
-
             if *value_16bit < 0x0030 || *value_16bit > 0x0039 {
                 return None;
             }
-            timestamp += *value_16bit as i32 - 0x0030;
+            timestamp = timestamp
+                .checked_mul(10)?
+                .checked_add(*value_16bit as i32 - 0x0030)?;
         }
         Some(timestamp)
     }
diff --git a/keramics-formats/src/ewf/table.rs b/keramics-formats/src/ewf/table.rs
index 4eedf34..233f45c 100644
--- a/keramics-formats/src/ewf/table.rs
+++ b/keramics-formats/src/ewf/table.rs
@@ -11,6 +11,7 @@
  * under the License.
  */
 
+use std::cmp::min;
 use std::io::SeekFrom;
 
 use keramics_checksums::Adler32Context;
@@ -26,6 +27,9 @@ pub struct EwfTable {
     /// Mediator.
     mediator: MediatorReference,
 
+    /// Value to indicate the table entries are followed by a footer.
+    pub has_footer: bool,
+
     /// Base offset.
     pub base_offset: u64,
 
@@ -38,6 +42,7 @@ impl EwfTable {
     pub fn new() -> Self {
         Self {
             mediator: Mediator::current(),
+            has_footer: true,
             base_offset: 0,
             entries: Vec::new(),
         }
@@ -65,32 +70,29 @@ impl EwfTable {
 
         let mut data_offset: usize = 24;
         let footer_offset: usize = 24 + (table_header.number_of_entries as usize * 4);
-        let footer_end_offset: usize = footer_offset + 4;
-
-        let mut table_footer: EwfTableFooter = EwfTableFooter::new();
-
-        if self.mediator.debug_output {
-            self.mediator.debug_print(EwfTableFooter::debug_read_data(
-                &data[footer_offset..footer_end_offset],
-            ));
-        }
-        match table_footer.read_data(&data[footer_offset..footer_end_offset]) {
-            Ok(_) => {}
-            Err(mut error) => {
-                keramics_core::error_trace_add_frame!(error, "Unable to read table footer");
-                return Err(error);
-            }
-        }
-        let mut adler32_context: Adler32Context = Adler32Context::new(1);
-        adler32_context.update(&data[data_offset..footer_offset]);
-        let calculated_checksum: u32 = adler32_context.finalize();
-
-        if table_footer.checksum != calculated_checksum {
+        let footer_end_offset: usize = if self.has_footer {
+            footer_offset + 4
+        } else {
+            footer_offset
+        };
+        if footer_end_offset > data.len() {
             return Err(keramics_core::error_trace_new!(format!(
-                "Mismatch between stored: 0x{:08x} and calculated: 0x{:08x} checksums",
-                table_footer.checksum, calculated_checksum
+                "Unsupported number of entries: {} value out of bounds",
+                table_header.number_of_entries
             )));
         }
+        if self.has_footer {
+            match self.read_footer(
+                &data[footer_offset..footer_end_offset],
+                &data[data_offset..footer_offset],
+            ) {
+                Ok(_) => {}
+                Err(mut error) => {
+                    keramics_core::error_trace_add_frame!(error, "Unable to read table footer");
+                    return Err(error);
+                }
+            }
+        }
         for entry_index in 0..table_header.number_of_entries {
             let data_end_offset: usize = data_offset + 4;
 
@@ -118,6 +120,29 @@ impl EwfTable {
         Ok(())
     }
 
+    /// Reads the table footer from a buffer and checks the entries data.
+    fn read_footer(&self, data: &[u8], entries_data: &[u8]) -> Result<(), ErrorTrace> {
+        let mut table_footer: EwfTableFooter = EwfTableFooter::new();
+
+        if self.mediator.debug_output {
+            self.mediator
+                .debug_print(EwfTableFooter::debug_read_data(data));
+        }
+        table_footer.read_data(data)?;
+
+        let mut adler32_context: Adler32Context = Adler32Context::new(1);
+        adler32_context.update(entries_data);
+        let calculated_checksum: u32 = adler32_context.finalize();
+
+        if table_footer.checksum != calculated_checksum {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Mismatch between stored: 0x{:08x} and calculated: 0x{:08x} checksums",
+                table_footer.checksum, calculated_checksum
+            )));
+        }
+        Ok(())
+    }
+
     /// Reads the table from a specific position in a data stream.
     pub fn read_at_position(
         &mut self,
@@ -125,14 +150,15 @@ impl EwfTable {
         data_size: u64,
         position: SeekFrom,
     ) -> Result<(), ErrorTrace> {
-        // Note that 16777216 is an arbitrary chosen limit.
-        if data_size < 28 || data_size > 16777216 {
+        if data_size < 28 {
             return Err(keramics_core::error_trace_new!(format!(
                 "Unsupported table data size: {} value out of bounds",
                 data_size
             )));
         }
-        let mut data: Vec<u8> = vec![0; data_size as usize];
+        // Note that 16777216 is an arbitrary chosen limit and that the table
+        // section can contain the chunks, that are stored after the table.
+        let mut data: Vec<u8> = vec![0; min(data_size, 16777216) as usize];
 
         let offset: u64 =
             keramics_core::data_stream_read_exact_at_position!(data_stream, &mut data, position);
diff --git a/keramics-formats/src/ewf/volume.rs b/keramics-formats/src/ewf/volume.rs
index c56d4c7..e9cf842 100644
--- a/keramics-formats/src/ewf/volume.rs
+++ b/keramics-formats/src/ewf/volume.rs
@@ -14,7 +14,7 @@
 use keramics_checksums::Adler32Context;
 use keramics_core::ErrorTrace;
 use keramics_layout_map::LayoutMap;
-use keramics_types::{Uuid, bytes_to_u32_le};
+use keramics_types::{Uuid, bytes_to_u32_le, bytes_to_u64_le};
 
 #[derive(LayoutMap)]
 #[layout_map(
@@ -61,7 +61,7 @@ pub struct EwfE01Volume {
     pub bytes_per_sector: u32,
 
     /// Number of sectors.
-    pub number_of_sectors: u32,
+    pub number_of_sectors: u64,
 
     /// Media flags.
     pub media_flags: u8,
@@ -115,7 +115,7 @@ impl EwfE01Volume {
         self.number_of_chunks = bytes_to_u32_le!(data, 4);
         self.sectors_per_chunk = bytes_to_u32_le!(data, 8);
         self.bytes_per_sector = bytes_to_u32_le!(data, 12);
-        self.number_of_sectors = bytes_to_u32_le!(data, 16);
+        self.number_of_sectors = bytes_to_u64_le!(data, 16);
         self.media_flags = data[36];
         self.compression_level = data[52];
         self.error_granularity = bytes_to_u32_le!(data, 56);
-- 
2.43.0


From e21d68a42909d49b9864ea261f39d165c4cb605d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 27/48] fix: place logical MBR partitions relative to their own
 boot record and check GPT block numbers

---
 docs/formats/src/mbr.md                     |  5 ++--
 keramics-formats/src/gpt/volume_system.rs   | 31 ++++++++++++++++++---
 keramics-formats/src/mbr/partition_entry.rs |  4 +++
 keramics-formats/src/mbr/volume_system.rs   | 13 +++------
 4 files changed, 38 insertions(+), 15 deletions(-)

diff --git a/docs/formats/src/mbr.md b/docs/formats/src/mbr.md
index 24d550e..06984c2 100644
--- a/docs/formats/src/mbr.md
+++ b/docs/formats/src/mbr.md
@@ -125,8 +125,9 @@ and additional extended partition tables.
 | 510 | 2 | "\x55\xaa" | Signature
 
 The second partition entry contains an extended partition which points to the
-next EPR. The LBA addresses in the EPR are relative to the start of the first
-EPR.
+next EPR. The LBA address of the next EPR is relative to the start of the first
+EPR. The LBA address of the logical partition is relative to the start of the
+EPR that contains its partition table entry.
 
 The first EPR typically has a [partition type](#partition_types) of 0x05 but
 certain version of Windows are known to use a partition type 0x0f, such as
diff --git a/keramics-formats/src/gpt/volume_system.rs b/keramics-formats/src/gpt/volume_system.rs
index 4800daf..70c7edc 100644
--- a/keramics-formats/src/gpt/volume_system.rs
+++ b/keramics-formats/src/gpt/volume_system.rs
@@ -165,8 +165,10 @@ impl GptVolumeSystem {
                 ));
             }
         }
-        let backup_partition_table_offset: u64 =
-            partition_table_header.backup_header_block_number * self.bytes_per_sector as u64;
+        // Note that a value out of bounds is handled as an invalid block number.
+        let backup_partition_table_offset: u64 = partition_table_header
+            .backup_header_block_number
+            .saturating_mul(self.bytes_per_sector as u64);
 
         let mut backup_partition_table_header = GptPartitionTableHeader::new();
 
@@ -219,8 +221,18 @@ impl GptVolumeSystem {
         }
         let mut crc32_context: ReversedCrc32Context = ReversedCrc32Context::new(0xedb88320, 0);
 
-        let mut entry_data_offset: u64 =
-            partition_table_header.entries_start_block_number * self.bytes_per_sector as u64;
+        let mut entry_data_offset: u64 = match partition_table_header
+            .entries_start_block_number
+            .checked_mul(self.bytes_per_sector as u64)
+        {
+            Some(offset) => offset,
+            None => {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Partition entries start block number: {} value out of bounds",
+                    partition_table_header.entries_start_block_number
+                )));
+            }
+        };
         let mut entry_data: Vec<u8> = vec![0; partition_table_header.entry_data_size as usize];
 
         for entry_index in 0..partition_table_header.number_of_entries {
@@ -267,6 +279,17 @@ impl GptVolumeSystem {
                         partition_table_header.area_end_block_number,
                     )));
                 }
+                if partition_entry
+                    .end_block_number
+                    .checked_add(1)
+                    .and_then(|value| value.checked_mul(self.bytes_per_sector as u64))
+                    .is_none()
+                {
+                    return Err(keramics_core::error_trace_new!(format!(
+                        "Partition entry: {} end block number: {} value out of bounds",
+                        entry_index, partition_entry.end_block_number,
+                    )));
+                }
                 self.partition_entries.push(partition_entry);
             }
         }
diff --git a/keramics-formats/src/mbr/partition_entry.rs b/keramics-formats/src/mbr/partition_entry.rs
index 59b4a96..2673c1d 100644
--- a/keramics-formats/src/mbr/partition_entry.rs
+++ b/keramics-formats/src/mbr/partition_entry.rs
@@ -33,6 +33,9 @@ pub struct MbrPartitionEntry {
     /// The partition index.
     pub index: usize,
 
+    /// The offset of the boot record the start LBA is relative to.
+    pub boot_record_offset: u64,
+
     /// The partition flags.
     pub flags: u8,
 
@@ -51,6 +54,7 @@ impl MbrPartitionEntry {
     pub fn new() -> Self {
         Self {
             index: 0,
+            boot_record_offset: 0,
             flags: 0,
             partition_type: 0,
             start_address_lba: 0,
diff --git a/keramics-formats/src/mbr/volume_system.rs b/keramics-formats/src/mbr/volume_system.rs
index 720d932..a69d665 100644
--- a/keramics-formats/src/mbr/volume_system.rs
+++ b/keramics-formats/src/mbr/volume_system.rs
@@ -76,14 +76,11 @@ impl MbrVolumeSystem {
                         "Unsupported bytes per sector: 0"
                     ));
                 }
-                let mut partition_offset: u64 =
-                    partition_entry.start_address_lba as u64 * self.bytes_per_sector as u64;
+                let partition_offset: u64 = partition_entry.boot_record_offset
+                    + (partition_entry.start_address_lba as u64 * self.bytes_per_sector as u64);
                 let partition_size: u64 =
                     partition_entry.number_of_sectors as u64 * self.bytes_per_sector as u64;
 
-                if partition_entry.index >= 4 {
-                    partition_offset += self.first_extended_boot_record_offset;
-                }
                 let mut partition: MbrPartition = MbrPartition::new(
                     partition_entry.index,
                     partition_offset,
@@ -261,10 +258,7 @@ impl MbrVolumeSystem {
         let mut extended_boot_record_offset: u64 = 0;
 
         while let Some(mut partition_entry) = extended_boot_record.partition_entries.pop_front() {
-            if partition_entry.partition_type == 0 {
-                continue;
-            }
-            if partition_entry.partition_type == 5 {
+            if partition_entry.partition_type == 5 || partition_entry.partition_type == 15 {
                 if extended_boot_record_offset != 0 {
                     return Err(keramics_core::error_trace_new!(
                         "More than 1 extended partition entry per boot record is not supported"
@@ -274,6 +268,7 @@ impl MbrVolumeSystem {
                     + (partition_entry.start_address_lba as u64 * self.bytes_per_sector as u64);
             } else if partition_entry.partition_type != 0 {
                 partition_entry.index = first_entry_index + entry_index;
+                partition_entry.boot_record_offset = offset;
                 self.partition_entries.push(partition_entry);
             }
             entry_index += 1;
-- 
2.43.0


From 763c51ad364065deeab6ef9bcd3e46dd39bfa8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:23 +0000
Subject: [PATCH 28/48] fix: follow FAT cluster chains, directory terminators,
 long names and labels as the format describes

FAT32 table entries have 28 bits, the upper 16 bits of the start cluster
belong to FAT32 only, the first byte 0 ends a directory, long names need
all their parts and a matching checksum, and volume labels may use all
11 characters.
---
 .../src/fat/block_allocation_table.rs         |  5 +-
 keramics-formats/src/fat/block_stream.rs      |  6 ++-
 keramics-formats/src/fat/boot_record_fat12.rs |  2 +-
 keramics-formats/src/fat/boot_record_fat32.rs |  2 +-
 keramics-formats/src/fat/directory_entries.rs | 14 +++--
 keramics-formats/src/fat/directory_entry.rs   | 17 ++++++
 .../src/fat/directory_entry_type.rs           |  2 +-
 keramics-formats/src/fat/file_entry.rs        | 12 +++--
 keramics-formats/src/fat/file_system.rs       | 47 ++++++++++-------
 .../src/fat/long_name_directory_entry.rs      |  5 ++
 .../src/fat/short_name_directory_entry.rs     | 52 +++++++++++++++----
 keramics-formats/src/fat/string.rs            |  8 ++-
 12 files changed, 130 insertions(+), 42 deletions(-)

diff --git a/keramics-formats/src/fat/block_allocation_table.rs b/keramics-formats/src/fat/block_allocation_table.rs
index 30da809..9e25c92 100644
--- a/keramics-formats/src/fat/block_allocation_table.rs
+++ b/keramics-formats/src/fat/block_allocation_table.rs
@@ -106,9 +106,8 @@ impl FatBlockAllocationTable {
                 }
             }
             FatFormat::Fat16 => bytes_to_u16_le!(data, 0) as u32,
-            FatFormat::Fat32 => {
-                bytes_to_u32_le!(data, 0)
-            }
+            // Only the lower 28-bits of a FAT-32 entry are used.
+            FatFormat::Fat32 => bytes_to_u32_le!(data, 0) & 0x0fffffff,
         };
         if self.mediator.debug_output {
             self.mediator
diff --git a/keramics-formats/src/fat/block_stream.rs b/keramics-formats/src/fat/block_stream.rs
index cc6cc2b..9152252 100644
--- a/keramics-formats/src/fat/block_stream.rs
+++ b/keramics-formats/src/fat/block_stream.rs
@@ -70,7 +70,11 @@ impl FatBlockStream {
         let mut read_cluster_block_numbers: HashSet<u32> = HashSet::new();
         let mut logical_offset: u64 = 0;
 
-        while cluster_block_number >= 2 && cluster_block_number < largest_cluster_block_number {
+        // Note that the cluster chain can contain more clusters than needed to store the data.
+        while logical_offset < block_tree_data_size
+            && cluster_block_number >= 2
+            && cluster_block_number < largest_cluster_block_number
+        {
             if read_cluster_block_numbers.contains(&cluster_block_number) {
                 return Err(keramics_core::error_trace_new!(format!(
                     "Cluster block: {} already read",
diff --git a/keramics-formats/src/fat/boot_record_fat12.rs b/keramics-formats/src/fat/boot_record_fat12.rs
index bff8616..98dfbca 100644
--- a/keramics-formats/src/fat/boot_record_fat12.rs
+++ b/keramics-formats/src/fat/boot_record_fat12.rs
@@ -102,7 +102,7 @@ impl Fat12BootRecord {
 
             let slice: &[u8] = match data[43..54].iter().rev().position(|value| *value != b' ') {
                 Some(data_index) => &data[43..54 - data_index],
-                None => &data[43..54],
+                None => &data[43..43],
             };
             boot_record.volume_label.elements.extend_from_slice(&slice);
         }
diff --git a/keramics-formats/src/fat/boot_record_fat32.rs b/keramics-formats/src/fat/boot_record_fat32.rs
index 37564c4..7c88cd2 100644
--- a/keramics-formats/src/fat/boot_record_fat32.rs
+++ b/keramics-formats/src/fat/boot_record_fat32.rs
@@ -132,7 +132,7 @@ impl Fat32BootRecord {
 
             let slice: &[u8] = match data[71..82].iter().rev().position(|value| *value != b' ') {
                 Some(data_index) => &data[71..82 - data_index],
-                None => &data[71..82],
+                None => &data[71..71],
             };
             boot_record.volume_label.elements.extend_from_slice(&slice);
         }
diff --git a/keramics-formats/src/fat/directory_entries.rs b/keramics-formats/src/fat/directory_entries.rs
index 524f5ac..c579ce6 100644
--- a/keramics-formats/src/fat/directory_entries.rs
+++ b/keramics-formats/src/fat/directory_entries.rs
@@ -94,13 +94,16 @@ impl FatDirectoryEntries {
     }
 
     /// Reads the directory entries from a buffer.
+    ///
+    /// Returns true if the terminator directory entry was read.
     fn read_data(
         &mut self,
         data: &[u8],
         mut directory_entry_offset: u64,
         last_vfat_sequence_number: &mut u8,
         long_name_entries: &mut Vec<FatLongNameDirectoryEntry>,
-    ) -> Result<(), ErrorTrace> {
+    ) -> Result<bool, ErrorTrace> {
+        let mut is_terminated: bool = false;
         let mut safe_last_vfat_sequence_number: u8 = *last_vfat_sequence_number;
 
         let mut data_offset: usize = 0;
@@ -193,11 +196,15 @@ impl FatDirectoryEntries {
                             self.entries.insert(lookup_name, directory_entry);
                         }
                     }
+                    long_name_entries.clear();
                 }
                 FatDirectoryEntryType::Terminator => {
+                    is_terminated = true;
                     break;
                 }
                 FatDirectoryEntryType::Unallocated => {
+                    long_name_entries.clear();
+
                     // TODO: add support for recovering unallocated entries
                 }
             }
@@ -206,7 +213,7 @@ impl FatDirectoryEntries {
         }
         *last_vfat_sequence_number = safe_last_vfat_sequence_number;
 
-        Ok(())
+        Ok(is_terminated)
     }
 
     /// Reads the directories entries starting at a specific cluster block in a data stream.
@@ -254,7 +261,8 @@ impl FatDirectoryEntries {
                 &mut last_vfat_sequence_number,
                 &mut long_name_entries,
             ) {
-                Ok(_) => {}
+                Ok(true) => break,
+                Ok(false) => {}
                 Err(mut error) => {
                     keramics_core::error_trace_add_frame!(
                         error,
diff --git a/keramics-formats/src/fat/directory_entry.rs b/keramics-formats/src/fat/directory_entry.rs
index 7388a97..cbde90a 100644
--- a/keramics-formats/src/fat/directory_entry.rs
+++ b/keramics-formats/src/fat/directory_entry.rs
@@ -66,6 +66,23 @@ impl FatDirectoryEntry {
 
     /// Fills the directory entry based on a long name directory entries.
     pub fn set_long_name(&mut self, long_name_entries: &mut Vec<FatLongNameDirectoryEntry>) {
+        // Ignore long name directory entries that are incomplete or of another directory entry.
+        let number_of_entries: usize = long_name_entries.len();
+        let is_complete: bool =
+            long_name_entries
+                .iter()
+                .enumerate()
+                .all(|(entry_index, long_name_entry)| {
+                    let sequence_number: usize = number_of_entries - entry_index;
+
+                    (long_name_entry.sequence_number & 0x1f) as usize == sequence_number
+                        && (long_name_entry.sequence_number & 0x40 != 0) == (entry_index == 0)
+                        && long_name_entry.name_checksum == self.short_name.name_checksum
+                });
+
+        if !is_complete {
+            long_name_entries.clear();
+        }
         if !long_name_entries.is_empty() {
             let mut long_name: Ucs2String = Ucs2String::new();
 
diff --git a/keramics-formats/src/fat/directory_entry_type.rs b/keramics-formats/src/fat/directory_entry_type.rs
index 3a07398..25fed7d 100644
--- a/keramics-formats/src/fat/directory_entry_type.rs
+++ b/keramics-formats/src/fat/directory_entry_type.rs
@@ -36,7 +36,7 @@ impl FatDirectoryEntryType {
             && ((data[0] >= 0x01 && data[0] <= 0x13) || (data[0] >= 0x41 && data[0] <= 0x54))
         {
             FatDirectoryEntryType::LongName
-        } else if data[0..32] == [0; 32] {
+        } else if data[0] == 0x00 {
             FatDirectoryEntryType::Terminator
         } else {
             FatDirectoryEntryType::ShortName
diff --git a/keramics-formats/src/fat/file_entry.rs b/keramics-formats/src/fat/file_entry.rs
index 09668ba..af1c7c7 100644
--- a/keramics-formats/src/fat/file_entry.rs
+++ b/keramics-formats/src/fat/file_entry.rs
@@ -117,9 +117,11 @@ impl FatFileEntry {
         if self.is_directory() {
             return Ok(None);
         }
-        let (data_start_cluster, data_size): (u16, u32) = match self.directory_entry.as_ref() {
+        let (data_start_cluster, data_size): (u32, u32) = match self.directory_entry.as_ref() {
             Some(directory_entry) => (
-                directory_entry.short_name.data_start_cluster,
+                directory_entry
+                    .short_name
+                    .get_data_start_cluster(&self.block_allocation_table.format),
                 directory_entry.short_name.data_size,
             ),
             None => (0, 0),
@@ -130,7 +132,7 @@ impl FatFileEntry {
         match block_stream.open(
             &self.data_stream,
             &self.block_allocation_table,
-            data_start_cluster as u32,
+            data_start_cluster,
         ) {
             Ok(_) => {}
             Err(mut error) => {
@@ -253,7 +255,9 @@ impl FatFileEntry {
     /// Reads the sub directory entries.
     fn read_sub_directory_entries(&mut self) -> Result<(), ErrorTrace> {
         let cluster_block_number: u32 = match &self.directory_entry {
-            Some(directory_entry) => directory_entry.short_name.data_start_cluster as u32,
+            Some(directory_entry) => directory_entry
+                .short_name
+                .get_data_start_cluster(&self.block_allocation_table.format),
             None => {
                 return Err(keramics_core::error_trace_new!("Missing directory entry"));
             }
diff --git a/keramics-formats/src/fat/file_system.rs b/keramics-formats/src/fat/file_system.rs
index b0f846a..065d647 100644
--- a/keramics-formats/src/fat/file_system.rs
+++ b/keramics-formats/src/fat/file_system.rs
@@ -262,27 +262,24 @@ impl FatFileSystem {
                 return Err(error);
             }
         }
-        let mut directory_entry_offset: u64 = (file_entry_identifier as u64) - 32;
+        let mut directory_entry_offset: u64 = file_entry_identifier as u64;
 
-        let cluster_block_number: u32 = if directory_entry_offset < self.first_cluster_offset {
-            0
-        } else {
-            (2 + ((file_entry_identifier as u64) - self.first_cluster_offset)
-                / (self.cluster_block_size as u64)) as u32
-        };
         let first_directory_entry_offset: u64 =
             if directory_entry_offset < self.first_cluster_offset {
                 self.root_directory_offset
             } else {
-                self.first_cluster_offset
-                    + (((cluster_block_number - 2) as u64) * (self.cluster_block_size as u64))
+                let relative_offset: u64 = directory_entry_offset - self.first_cluster_offset;
+
+                directory_entry_offset - (relative_offset % (self.cluster_block_size as u64))
             };
         let mut last_vfat_sequence_number: u8 = 0;
         let mut long_name_entries: Vec<FatLongNameDirectoryEntry> = Vec::new();
         let mut last_entry: bool = false;
         let mut data: [u8; 32] = [0; 32];
 
-        while directory_entry_offset >= first_directory_entry_offset {
+        while directory_entry_offset >= first_directory_entry_offset + 32 {
+            directory_entry_offset -= 32;
+
             keramics_core::data_stream_read_exact_at_position!(
                 data_stream,
                 &mut data,
@@ -334,7 +331,6 @@ impl FatFileSystem {
             if last_entry {
                 break;
             }
-            directory_entry_offset -= 32;
         }
         if !last_entry {
             // TODO: determine previous cluster block.
@@ -365,14 +361,28 @@ impl FatFileSystem {
         self.root_directory_cluster_block_number = boot_record.root_directory_cluster_block_number;
         self.volume_serial_number = boot_record.volume_serial_number;
 
-        if !boot_record.volume_label.is_empty() {
+        if !boot_record.volume_label.is_empty() && boot_record.volume_label != "NO NAME" {
             self.volume_label = Some(boot_record.volume_label)
         }
-        let mut number_of_clusters: u64 = (boot_record.number_of_sectors as u64)
-            - (boot_record.number_of_reserved_sectors as u64);
-        number_of_clusters -= (boot_record.number_of_allocation_tables as u64)
-            * (boot_record.allocation_table_size as u64);
-        number_of_clusters /= boot_record.sectors_per_cluster_block as u64;
+        let root_directory_size: u64 = (boot_record.number_of_root_directory_entries as u64) * 32;
+
+        let number_of_metadata_sectors: u64 = (boot_record.number_of_reserved_sectors as u64)
+            + (boot_record.number_of_allocation_tables as u64)
+                * (boot_record.allocation_table_size as u64)
+            + root_directory_size.div_ceil(boot_record.bytes_per_sector as u64);
+
+        let number_of_clusters: u64 =
+            match (boot_record.number_of_sectors as u64).checked_sub(number_of_metadata_sectors) {
+                Some(number_of_sectors) => {
+                    number_of_sectors / (boot_record.sectors_per_cluster_block as u64)
+                }
+                None => {
+                    return Err(keramics_core::error_trace_new!(format!(
+                        "Unsupported number of sectors: {} value out of bounds",
+                        boot_record.number_of_sectors
+                    )));
+                }
+            };
 
         self.format =
             if self.root_directory_cluster_block_number != 0 || number_of_clusters >= 65525 {
@@ -401,7 +411,8 @@ impl FatFileSystem {
         self.block_allocation_table = Some(Arc::new(FatBlockAllocationTable::new(
             &self.format,
             allocation_table_offset,
-            number_of_clusters as u32,
+            // Note that the first 2 entries do not correspond to a cluster.
+            (number_of_clusters as u32).saturating_add(2),
             self.first_cluster_offset,
             self.cluster_block_size,
         )));
diff --git a/keramics-formats/src/fat/long_name_directory_entry.rs b/keramics-formats/src/fat/long_name_directory_entry.rs
index ed6aaa4..db6d6e7 100644
--- a/keramics-formats/src/fat/long_name_directory_entry.rs
+++ b/keramics-formats/src/fat/long_name_directory_entry.rs
@@ -34,6 +34,9 @@ pub struct FatLongNameDirectoryEntry {
     /// Sequence number
     pub sequence_number: u8,
 
+    /// Name checksum.
+    pub name_checksum: u8,
+
     /// Name
     pub name: Ucs2String,
 }
@@ -43,6 +46,7 @@ impl FatLongNameDirectoryEntry {
     pub fn new() -> Self {
         Self {
             sequence_number: 0,
+            name_checksum: 0,
             name: Ucs2String::new(),
         }
     }
@@ -55,6 +59,7 @@ impl FatLongNameDirectoryEntry {
             ));
         }
         self.sequence_number = data[0];
+        self.name_checksum = data[13];
 
         self.name.read_data_le(&data[1..11]);
 
diff --git a/keramics-formats/src/fat/short_name_directory_entry.rs b/keramics-formats/src/fat/short_name_directory_entry.rs
index ee587c3..05ce5bc 100644
--- a/keramics-formats/src/fat/short_name_directory_entry.rs
+++ b/keramics-formats/src/fat/short_name_directory_entry.rs
@@ -18,6 +18,7 @@ use keramics_layout_map::LayoutMap;
 use keramics_types::{ByteString, bytes_to_u16_le, bytes_to_u32_le};
 
 use super::constants::*;
+use super::enums::FatFormat;
 
 #[derive(Clone, LayoutMap)]
 #[layout_map(
@@ -29,7 +30,7 @@ use super::constants::*;
         field(name = "flags", data_type = "u8", format = "hex"),
         field(name = "creation_time", data_type = "FatTimeDate10Ms"),
         field(name = "access_date", data_type = "FatDate"),
-        field(name = "unknown2", data_type = "[u8; 2]", format = "hex"),
+        field(name = "data_start_cluster_upper", data_type = "u16"),
         field(name = "modification_time", data_type = "FatTimeDate"),
         field(name = "data_start_cluster", data_type = "u16"),
         field(name = "data_size", data_type = "u32"),
@@ -60,8 +61,14 @@ pub struct FatShortNameDirectoryEntry {
     /// Data start cluster.
     pub data_start_cluster: u16,
 
+    /// Upper 16-bits of the data start cluster, which are only used by FAT-32.
+    pub data_start_cluster_upper: u16,
+
     /// Data size.
     pub data_size: u32,
+
+    /// Name checksum.
+    pub(super) name_checksum: u8,
 }
 
 impl FatShortNameDirectoryEntry {
@@ -75,7 +82,19 @@ impl FatShortNameDirectoryEntry {
             access_time: DateTime::NotSet,
             modification_time: DateTime::NotSet,
             data_start_cluster: 0,
+            data_start_cluster_upper: 0,
             data_size: 0,
+            name_checksum: 0,
+        }
+    }
+
+    /// Retrieves the data start cluster.
+    pub fn get_data_start_cluster(&self, format: &FatFormat) -> u32 {
+        match format {
+            FatFormat::Fat12 | FatFormat::Fat16 => self.data_start_cluster as u32,
+            FatFormat::Fat32 => {
+                ((self.data_start_cluster_upper as u32) << 16) | (self.data_start_cluster as u32)
+            }
         }
     }
 
@@ -89,9 +108,22 @@ impl FatShortNameDirectoryEntry {
         self.file_attribute_flags = data[11];
         self.flags = data[12];
 
-        let slice: &[u8] = match data[0..8].iter().rev().position(|value| *value != b' ') {
-            Some(data_index) => &data[0..8 - data_index],
-            None => &data[0..8],
+        // Note that a volume label consists of both the name and the extension.
+        let is_volume_label: bool =
+            self.file_attribute_flags & 0x58 == FAT_FILE_ATTRIBUTE_FLAG_VOLUME_LABEL;
+        let name_size: usize = if is_volume_label && data[8] != 0 {
+            11
+        } else {
+            8
+        };
+
+        let slice: &[u8] = match data[0..name_size]
+            .iter()
+            .rev()
+            .position(|value| *value != b' ')
+        {
+            Some(data_index) => &data[0..name_size - data_index],
+            None => &data[0..0],
         };
         for byte_value in slice.iter() {
             if self.flags & 0x08 != 0 && *byte_value >= b'A' && *byte_value <= b'Z' {
@@ -100,11 +132,9 @@ impl FatShortNameDirectoryEntry {
                 self.name.elements.push(*byte_value);
             }
         }
-        if data[8] != 0 && data[8] != b' ' {
-            // Do not add an extension separator for a volume label.
-            if self.file_attribute_flags & 0x58 != FAT_FILE_ATTRIBUTE_FLAG_VOLUME_LABEL {
-                self.name.elements.push(b'.');
-            }
+        if !is_volume_label && data[8] != 0 && data[8] != b' ' {
+            self.name.elements.push(b'.');
+
             let slice: &[u8] = match data[8..11].iter().rev().position(|value| *value != b' ') {
                 Some(data_index) => &data[8..11 - data_index],
                 None => &data[8..11],
@@ -122,8 +152,12 @@ impl FatShortNameDirectoryEntry {
         self.modification_time = DateTime::FatTimeDate(FatTimeDate::from_bytes(&data[22..26]));
 
         self.data_start_cluster = bytes_to_u16_le!(data, 26);
+        self.data_start_cluster_upper = bytes_to_u16_le!(data, 20);
         self.data_size = bytes_to_u32_le!(data, 28);
 
+        self.name_checksum = data[0..11].iter().fold(0, |checksum: u8, value| {
+            checksum.rotate_right(1).wrapping_add(*value)
+        });
         Ok(())
     }
 }
diff --git a/keramics-formats/src/fat/string.rs b/keramics-formats/src/fat/string.rs
index b9b152d..b0608a1 100644
--- a/keramics-formats/src/fat/string.rs
+++ b/keramics-formats/src/fat/string.rs
@@ -53,7 +53,13 @@ impl FatString {
                                     "Unable to encode string - code point outside of UCS-2 range"
                                 ));
                             }
-                            lookup_name.elements.push(code_point as u16);
+                            // Note that the lookup name of a short name is in upper case.
+                            let element: u16 = code_point as u16;
+                            if element >= b'a' as u16 && element <= b'z' as u16 {
+                                lookup_name.elements.push(element - 32);
+                            } else {
+                                lookup_name.elements.push(element);
+                            }
                         }
                         Err(mut error) => {
                             keramics_core::error_trace_add_frame!(
-- 
2.43.0


From bfa54cb94f033995b218ac9fda0313a3a312c5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:45 +0000
Subject: [PATCH 29/48] fix: ext block groups, checksum seeds, extents, inline
 data, directory holes and times as the format describes

---
 keramics-formats/src/ext/block_stream.rs      | 29 +++++++++---
 keramics-formats/src/ext/directory_entries.rs |  2 +
 keramics-formats/src/ext/directory_tree.rs    | 30 +++++++++++--
 keramics-formats/src/ext/extents_tree.rs      | 24 ++++++++++
 keramics-formats/src/ext/features.rs          | 19 +++++---
 keramics-formats/src/ext/file_entry.rs        | 32 +++++++------
 keramics-formats/src/ext/file_system.rs       | 39 +++++++++++++---
 .../src/ext/group_descriptor_table.rs         |  8 ++++
 keramics-formats/src/ext/inode.rs             | 12 +++--
 keramics-formats/src/ext/inode_ext2.rs        | 15 +++++--
 keramics-formats/src/ext/inode_ext3.rs        | 15 +++++--
 keramics-formats/src/ext/inode_ext4.rs        |  8 ++--
 .../src/ext/inode_extension_ext4.rs           |  8 ++--
 keramics-formats/src/ext/inode_table.rs       | 32 +++++++++++--
 keramics-formats/src/ext/superblock.rs        | 45 ++++++++++++++++---
 15 files changed, 248 insertions(+), 70 deletions(-)

diff --git a/keramics-formats/src/ext/block_stream.rs b/keramics-formats/src/ext/block_stream.rs
index 1063cbc..314e6a7 100644
--- a/keramics-formats/src/ext/block_stream.rs
+++ b/keramics-formats/src/ext/block_stream.rs
@@ -56,9 +56,17 @@ impl ExtBlockStream {
         number_of_blocks: u64,
         block_ranges: &Vec<ExtBlockRange>,
     ) -> Result<(), ErrorTrace> {
-        let block_tree_data_size: u64 = number_of_blocks * (self.block_size as u64);
+        let block_tree_data_size: u64 = match number_of_blocks.checked_mul(self.block_size as u64) {
+            Some(data_size) if data_size <= i64::MAX as u64 => data_size,
+            _ => {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Invalid number of blocks: {} value out of bounds",
+                    number_of_blocks
+                )));
+            }
+        };
         self.block_tree =
-            BlockTree::<ExtBlockRange>::new(block_tree_data_size, 0, self.block_size as u64);
+            BlockTree::<ExtBlockRange>::new(block_tree_data_size, 256, self.block_size as u64);
         for block_range in block_ranges.iter() {
             let logical_offset: u64 = block_range.logical_block_number * (self.block_size as u64);
             let range_size: u64 = block_range.number_of_blocks * (self.block_size as u64);
@@ -120,13 +128,24 @@ impl ExtBlockStream {
                             return Err(keramics_core::error_trace_new!("Missing data stream"));
                         }
                     };
-                    let range_physical_offset: u64 =
-                        block_range.physical_block_number * (self.block_size as u64);
+                    let range_data_offset: u64 = match block_range
+                        .physical_block_number
+                        .checked_mul(self.block_size as u64)
+                        .and_then(|offset| offset.checked_add(range_relative_offset))
+                    {
+                        Some(offset) => offset,
+                        None => {
+                            return Err(keramics_core::error_trace_new!(format!(
+                                "Invalid physical block number: {} value out of bounds",
+                                block_range.physical_block_number
+                            )));
+                        }
+                    };
 
                     let read_count: usize = keramics_core::data_stream_read_at_position!(
                         data_stream,
                         &mut data[data_offset..data_end_offset],
-                        SeekFrom::Start(range_physical_offset + range_relative_offset)
+                        SeekFrom::Start(range_data_offset)
                     );
                     read_count
                 }
diff --git a/keramics-formats/src/ext/directory_entries.rs b/keramics-formats/src/ext/directory_entries.rs
index e5ddb68..07cd6ba 100644
--- a/keramics-formats/src/ext/directory_entries.rs
+++ b/keramics-formats/src/ext/directory_entries.rs
@@ -89,6 +89,8 @@ impl ExtDirectoryEntries {
                 return Err(error);
             }
         }
+        self.is_read = true;
+
         Ok(())
     }
 
diff --git a/keramics-formats/src/ext/directory_tree.rs b/keramics-formats/src/ext/directory_tree.rs
index 0b180f4..eb5f837 100644
--- a/keramics-formats/src/ext/directory_tree.rs
+++ b/keramics-formats/src/ext/directory_tree.rs
@@ -53,7 +53,19 @@ impl ExtDirectoryTree {
     ) -> Result<(), ErrorTrace> {
         for block_range in block_ranges.iter() {
             if block_range.range_type != ExtBlockRangeType::InFile {
-                break;
+                continue;
+            }
+            let range_end_block_number: u64 =
+                block_range.physical_block_number + block_range.number_of_blocks;
+
+            if range_end_block_number
+                .checked_mul(self.block_size as u64)
+                .is_none()
+            {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Invalid physical block number: {} value out of bounds",
+                    block_range.physical_block_number
+                )));
             }
             let mut block_offset: u64 =
                 block_range.physical_block_number * (self.block_size as u64);
@@ -135,12 +147,24 @@ impl ExtDirectoryTree {
             if entry.size == 0 {
                 break;
             }
-            if entry.size < 8 || (entry.size as usize) > data_size - data_offset {
+            let mut entry_size: usize = entry.size as usize;
+
+            // An entry of 65536 bytes is stored with a size of 65535.
+            if entry.size == 65535 && data_size - data_offset == 65536 {
+                entry_size = 65536;
+            }
+            if entry_size < 8 || entry_size > data_size - data_offset {
                 return Err(keramics_core::error_trace_new!(format!(
                     "Invalid directory entry size: {} value out of bounds",
                     entry.size
                 )));
             }
+            if (entry.name_size as usize) > entry_size - 8 {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Invalid directory entry name size: {} value out of bounds",
+                    entry.name_size
+                )));
+            }
             data_offset += 8;
 
             let name: ByteString = match entry.read_name(&data[data_offset..], &self.encoding) {
@@ -153,7 +177,7 @@ impl ExtDirectoryTree {
                     return Err(error);
                 }
             };
-            data_offset += (entry.size as usize) - 8;
+            data_offset += entry_size - 8;
 
             // TODO: print trailing data
 
diff --git a/keramics-formats/src/ext/extents_tree.rs b/keramics-formats/src/ext/extents_tree.rs
index 563bfb2..5a1872e 100644
--- a/keramics-formats/src/ext/extents_tree.rs
+++ b/keramics-formats/src/ext/extents_tree.rs
@@ -11,6 +11,7 @@
  * under the License.
  */
 
+use std::cmp::min;
 use std::io::SeekFrom;
 
 use keramics_core::mediator::{Mediator, MediatorReference};
@@ -109,6 +110,12 @@ impl ExtExtentsTree {
         }
         let mut data_offset: usize = 12;
 
+        if extents_header.number_of_entries as usize > (data_size - data_offset) / 12 {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid number of entries: {} value out of bounds",
+                extents_header.number_of_entries,
+            )));
+        }
         if extents_header.depth > 0 {
             for _ in 0..extents_header.number_of_entries {
                 let data_end_offset: usize = data_offset + 12;
@@ -178,6 +185,16 @@ impl ExtExtentsTree {
                 }
                 data_offset = data_end_offset;
 
+                if (entry.logical_block_number as u64) < *logical_block_number {
+                    return Err(keramics_core::error_trace_new!(format!(
+                        "Invalid logical block number: {} value out of bounds",
+                        entry.logical_block_number,
+                    )));
+                }
+                // Ignore blocks beyond the end of the data.
+                if entry.logical_block_number as u64 >= self.number_of_blocks {
+                    break;
+                }
                 if entry.logical_block_number as u64 > *logical_block_number {
                     let number_of_blocks: u64 =
                         (entry.logical_block_number as u64) - *logical_block_number;
@@ -202,6 +219,13 @@ impl ExtExtentsTree {
                     number_of_blocks -= 32768;
                     range_type = ExtBlockRangeType::Sparse;
                 }
+                number_of_blocks = min(
+                    number_of_blocks,
+                    self.number_of_blocks - (entry.logical_block_number as u64),
+                );
+                if number_of_blocks == 0 {
+                    continue;
+                }
                 let block_range: ExtBlockRange = ExtBlockRange::new(
                     entry.logical_block_number as u64,
                     entry.physical_block_number,
diff --git a/keramics-formats/src/ext/features.rs b/keramics-formats/src/ext/features.rs
index af97388..ea03de4 100644
--- a/keramics-formats/src/ext/features.rs
+++ b/keramics-formats/src/ext/features.rs
@@ -52,19 +52,24 @@ impl ExtFeatures {
             & EXT_READ_ONLY_COMPATIBLE_FEATURE_FLAG_METADATA_CHECKSUM
             != 0
         {
-            let mut crc32_context: ReversedCrc32Context = ReversedCrc32Context::new(0x82f63b78, 0);
-            crc32_context.update(&superblock.file_system_identifier);
-            let checksum: u32 = crc32_context.finalize();
-
-            self.metadata_checksum_seed = Some(checksum);
+            let checksum_seed: u32 = match superblock.metadata_checksum_seed {
+                Some(checksum_seed) => checksum_seed,
+                None => {
+                    let mut crc32_context: ReversedCrc32Context =
+                        ReversedCrc32Context::new(0x82f63b78, 0);
+                    crc32_context.update(&superblock.file_system_identifier);
+                    crc32_context.finalize()
+                }
+            };
+            self.metadata_checksum_seed = Some(checksum_seed);
         }
     }
 
     /// Retrieves the format version.
     pub fn get_format_version(&self) -> u8 {
         if self.compatible_feature_flags & 0x00000200 != 0
-            || self.incompatible_feature_flags & 0x0001f7c0 != 0
-            || self.read_only_compatible_feature_flags & 0x00000378 != 0
+            || self.incompatible_feature_flags & 0x0003f7c0 != 0
+            || self.read_only_compatible_feature_flags & 0x00000778 != 0
         {
             4
         } else if self.compatible_feature_flags & 0x00000004 != 0
diff --git a/keramics-formats/src/ext/file_entry.rs b/keramics-formats/src/ext/file_entry.rs
index 0f81159..9b5c183 100644
--- a/keramics-formats/src/ext/file_entry.rs
+++ b/keramics-formats/src/ext/file_entry.rs
@@ -11,7 +11,6 @@
  * under the License.
  */
 
-use std::cmp::max;
 use std::sync::{Arc, RwLock};
 
 use keramics_core::{DataStream, DataStreamReference, ErrorTrace, FakeDataStream};
@@ -157,15 +156,16 @@ impl ExtFileEntry {
                     self.inode.data_size,
                 )));
             }
-            let byte_string: ByteString = if self.inode.data_size < 60 {
-                ByteString::from(self.inode.data_reference.as_slice())
+            let mut byte_string: ByteString =
+                ByteString::new_with_encoding(&self.sub_directory_entries.encoding);
+
+            if self.inode.data_size < 60 {
+                byte_string.read_data(&self.inode.data_reference[0..self.inode.data_size as usize]);
             } else {
-                let number_of_blocks: u64 = max(
-                    self.inode
-                        .data_size
-                        .div_ceil(self.inode_table.block_size as u64),
-                    self.inode.number_of_blocks,
-                );
+                let number_of_blocks: u64 = self
+                    .inode
+                    .data_size
+                    .div_ceil(self.inode_table.block_size as u64);
                 let mut block_stream: ExtBlockStream =
                     ExtBlockStream::new(self.inode_table.block_size, self.inode.data_size);
 
@@ -192,8 +192,8 @@ impl ExtFileEntry {
                         return Err(error);
                     }
                 }
-                ByteString::from(&data)
-            };
+                byte_string.read_data(&data);
+            }
             self.symbolic_link_target = Some(byte_string);
         }
         Ok(self.symbolic_link_target.as_ref())
@@ -216,12 +216,10 @@ impl ExtFileEntry {
                 FakeDataStream::new(&self.inode.data_reference, self.inode.data_size);
             Ok(Some(Arc::new(RwLock::new(data_stream))))
         } else {
-            let number_of_blocks: u64 = max(
-                self.inode
-                    .data_size
-                    .div_ceil(self.inode_table.block_size as u64),
-                self.inode.number_of_blocks,
-            );
+            let number_of_blocks: u64 = self
+                .inode
+                .data_size
+                .div_ceil(self.inode_table.block_size as u64);
             let mut block_stream: ExtBlockStream =
                 ExtBlockStream::new(self.inode_table.block_size, self.inode.data_size);
 
diff --git a/keramics-formats/src/ext/file_system.rs b/keramics-formats/src/ext/file_system.rs
index ffd764c..8f19852 100644
--- a/keramics-formats/src/ext/file_system.rs
+++ b/keramics-formats/src/ext/file_system.rs
@@ -238,6 +238,7 @@ impl ExtFileSystem {
 
     /// Reads the block groups.
     fn read_block_groups(&mut self, data_stream: &DataStreamReference) -> Result<(), ErrorTrace> {
+        let data_stream_size: u64 = keramics_core::data_stream_get_size!(data_stream);
         let mut block_group_number: u32 = 0;
         let mut block_group_offset: u64 = 0;
         let mut block_group_size: u64 = 0;
@@ -253,13 +254,13 @@ impl ExtFileSystem {
 
         loop {
             if exponent3 < block_group_number {
-                exponent3 *= 3;
+                exponent3 = exponent3.saturating_mul(3);
             }
             if exponent5 < block_group_number {
-                exponent5 *= 5;
+                exponent5 = exponent5.saturating_mul(5);
             }
             if exponent7 < block_group_number {
-                exponent7 *= 7;
+                exponent7 = exponent7.saturating_mul(7);
             }
             // The first block group will always contain a superblock.
             let block_group_has_superblock: bool = if block_group_number == 0 {
@@ -308,6 +309,13 @@ impl ExtFileSystem {
                     self.features.initialize(&superblock);
 
                     number_of_block_groups = superblock.get_number_of_block_groups();
+
+                    if number_of_block_groups > u32::MAX as u64 {
+                        return Err(keramics_core::error_trace_new!(format!(
+                            "Invalid number of block groups: {} value out of bounds",
+                            number_of_block_groups
+                        )));
+                    }
                     block_group_size = superblock.get_block_group_size();
 
                     self.number_of_inodes = superblock.number_of_inodes;
@@ -333,8 +341,18 @@ impl ExtFileSystem {
                         let group_descriptor_size: u32 = self.features.get_group_descriptor_size();
                         number_of_block_groups_per_meta_group =
                             superblock.block_size / group_descriptor_size;
-                        meta_group_start_block_number = superblock.first_meta_block_group
-                            * number_of_block_groups_per_meta_group;
+                        meta_group_start_block_number = match superblock
+                            .first_meta_block_group
+                            .checked_mul(number_of_block_groups_per_meta_group)
+                        {
+                            Some(block_group_number) => block_group_number,
+                            None => {
+                                return Err(keramics_core::error_trace_new!(format!(
+                                    "Invalid first meta block group: {} value out of bounds",
+                                    superblock.first_meta_block_group
+                                )));
+                            }
+                        };
                     }
                     self.metadata_checksum_seed = match superblock.metadata_checksum_seed {
                         Some(metadata_checksum_seed) => metadata_checksum_seed,
@@ -383,6 +401,10 @@ impl ExtFileSystem {
                 }
             }
             if block_group_has_group_descriptors {
+                let has_primary_group_descriptors: bool = block_group_number == 0
+                    || (self.features.has_meta_block_groups()
+                        && block_group_number >= meta_group_start_block_number
+                        && meta_group_block_group_number == 0);
                 let mut group_descriptor_offset: u64 = block_group_offset;
 
                 if self.block_size == 1024 {
@@ -417,6 +439,8 @@ impl ExtFileSystem {
                     .read_at_position(data_stream, SeekFrom::Start(group_descriptor_offset))
                 {
                     Ok(_) => {}
+                    // Ignore backup group descriptor tables that cannot be read.
+                    Err(_) if !has_primary_group_descriptors => {}
                     Err(mut error) => {
                         keramics_core::error_trace_add_frame!(
                             error,
@@ -451,7 +475,10 @@ impl ExtFileSystem {
             block_group_number += 1;
             block_group_offset += block_group_size;
 
-            if block_group_number as u64 >= number_of_block_groups {
+            // Note that there is nothing to read beyond the end of the data stream.
+            if block_group_number as u64 >= number_of_block_groups
+                || block_group_offset >= data_stream_size
+            {
                 break;
             }
         }
diff --git a/keramics-formats/src/ext/group_descriptor_table.rs b/keramics-formats/src/ext/group_descriptor_table.rs
index d0c8d86..89a8f4c 100644
--- a/keramics-formats/src/ext/group_descriptor_table.rs
+++ b/keramics-formats/src/ext/group_descriptor_table.rs
@@ -142,6 +142,14 @@ impl ExtGroupDescriptorTable {
     ) -> Result<(), ErrorTrace> {
         let data_size: usize =
             (self.number_of_group_descriptors as usize) * self.group_descriptor_size;
+
+        let data_stream_size: u64 = keramics_core::data_stream_get_size!(data_stream);
+        if data_size as u64 > data_stream_size {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid group descriptor table size: {} value out of bounds",
+                data_size
+            )));
+        }
         let mut data: Vec<u8> = vec![0; data_size];
 
         let offset: u64 =
diff --git a/keramics-formats/src/ext/inode.rs b/keramics-formats/src/ext/inode.rs
index 720728d..7e18700 100644
--- a/keramics-formats/src/ext/inode.rs
+++ b/keramics-formats/src/ext/inode.rs
@@ -11,8 +11,6 @@
  * under the License.
  */
 
-use std::cmp::max;
-
 use keramics_core::{DataStreamReference, ErrorTrace};
 use keramics_datetime::DateTime;
 
@@ -161,8 +159,10 @@ impl ExtInode {
         if format_version == 4 && self.flags & EXT_INODE_FLAG_INLINE_DATA != 0 {
             // The data is stored inline in self.data_reference
             // Note that self.data_size can be larger than 60
+            return Ok(());
         } else if file_mode_type == EXT_FILE_MODE_TYPE_SYMBOLIC_LINK && self.data_size < 60 {
             // The symbolic link target path is stored in self.data_reference
+            return Ok(());
         }
         match file_mode_type {
             EXT_FILE_MODE_TYPE_CHARACTER_DEVICE | EXT_FILE_MODE_TYPE_BLOCK_DEVICE => {
@@ -170,11 +170,9 @@ impl ExtInode {
             }
             _ => {
                 // Note that the number of blocks stored in the inode does not always contain
-                // the total number of blocks e.g. when the inode has leading sparse data.
-                let number_of_blocks: u64 = max(
-                    self.data_size.div_ceil(block_size as u64),
-                    self.number_of_blocks,
-                );
+                // the total number of blocks e.g. when the inode has leading sparse data, or can
+                // contain blocks beyond the end of the data.
+                let number_of_blocks: u64 = self.data_size.div_ceil(block_size as u64);
 
                 if format_version == 4 && self.flags & EXT_INODE_FLAG_HAS_EXTENTS != 0 {
                     let mut extents_tree: ExtExtentsTree =
diff --git a/keramics-formats/src/ext/inode_ext2.rs b/keramics-formats/src/ext/inode_ext2.rs
index 78a1eb4..b7cc925 100644
--- a/keramics-formats/src/ext/inode_ext2.rs
+++ b/keramics-formats/src/ext/inode_ext2.rs
@@ -16,6 +16,7 @@ use keramics_datetime::{DateTime, PosixTime32};
 use keramics_layout_map::LayoutMap;
 use keramics_types::{bytes_to_i32_le, bytes_to_u16_le, bytes_to_u32_le};
 
+use crate::ext::constants::*;
 use crate::ext::inode::ExtInode;
 
 #[derive(LayoutMap)]
@@ -71,21 +72,27 @@ impl Ext2Inode {
 
         inode.data_size = bytes_to_u32_le!(data, 4) as u64;
 
+        // The upper part of the size of a regular file is stored in the directory ACL.
+        if inode.file_mode & 0xf000 == EXT_FILE_MODE_TYPE_REGULAR_FILE {
+            let upper_32bit: u32 = bytes_to_u32_le!(data, 108);
+            inode.data_size |= (upper_32bit as u64) << 32;
+        }
+
         inode.access_timestamp = bytes_to_i32_le!(data, 8);
-        if inode.access_timestamp > 0 {
+        if inode.access_timestamp != 0 {
             inode.access_time = DateTime::PosixTime32(PosixTime32::new(inode.access_timestamp));
         }
         inode.change_timestamp = bytes_to_i32_le!(data, 12);
-        if inode.change_timestamp > 0 {
+        if inode.change_timestamp != 0 {
             inode.change_time = DateTime::PosixTime32(PosixTime32::new(inode.change_timestamp));
         }
         inode.modification_timestamp = bytes_to_i32_le!(data, 16);
-        if inode.modification_timestamp > 0 {
+        if inode.modification_timestamp != 0 {
             inode.modification_time =
                 DateTime::PosixTime32(PosixTime32::new(inode.modification_timestamp));
         }
         let timestamp: i32 = bytes_to_i32_le!(data, 20);
-        if timestamp > 0 {
+        if timestamp != 0 {
             inode.deletion_time = DateTime::PosixTime32(PosixTime32::new(timestamp));
         }
         inode.number_of_links = bytes_to_u16_le!(data, 26);
diff --git a/keramics-formats/src/ext/inode_ext3.rs b/keramics-formats/src/ext/inode_ext3.rs
index 1a34cab..8931100 100644
--- a/keramics-formats/src/ext/inode_ext3.rs
+++ b/keramics-formats/src/ext/inode_ext3.rs
@@ -16,6 +16,7 @@ use keramics_datetime::{DateTime, PosixTime32};
 use keramics_layout_map::LayoutMap;
 use keramics_types::{bytes_to_i32_le, bytes_to_u16_le, bytes_to_u32_le};
 
+use crate::ext::constants::*;
 use crate::ext::inode::ExtInode;
 
 #[derive(LayoutMap)]
@@ -71,21 +72,27 @@ impl Ext3Inode {
 
         inode.data_size = bytes_to_u32_le!(data, 4) as u64;
 
+        // The upper part of the size of a regular file is stored in the directory ACL.
+        if inode.file_mode & 0xf000 == EXT_FILE_MODE_TYPE_REGULAR_FILE {
+            let upper_32bit: u32 = bytes_to_u32_le!(data, 108);
+            inode.data_size |= (upper_32bit as u64) << 32;
+        }
+
         inode.access_timestamp = bytes_to_i32_le!(data, 8);
-        if inode.access_timestamp > 0 {
+        if inode.access_timestamp != 0 {
             inode.access_time = DateTime::PosixTime32(PosixTime32::new(inode.access_timestamp));
         }
         inode.change_timestamp = bytes_to_i32_le!(data, 12);
-        if inode.change_timestamp > 0 {
+        if inode.change_timestamp != 0 {
             inode.change_time = DateTime::PosixTime32(PosixTime32::new(inode.change_timestamp));
         }
         inode.modification_timestamp = bytes_to_i32_le!(data, 16);
-        if inode.modification_timestamp > 0 {
+        if inode.modification_timestamp != 0 {
             inode.modification_time =
                 DateTime::PosixTime32(PosixTime32::new(inode.modification_timestamp));
         }
         let timestamp: i32 = bytes_to_i32_le!(data, 20);
-        if timestamp > 0 {
+        if timestamp != 0 {
             inode.deletion_time = DateTime::PosixTime32(PosixTime32::new(timestamp));
         }
         inode.number_of_links = bytes_to_u16_le!(data, 26);
diff --git a/keramics-formats/src/ext/inode_ext4.rs b/keramics-formats/src/ext/inode_ext4.rs
index 1ab6468..0b4d6c5 100644
--- a/keramics-formats/src/ext/inode_ext4.rs
+++ b/keramics-formats/src/ext/inode_ext4.rs
@@ -77,20 +77,20 @@ impl Ext4Inode {
 
         if inode.flags & 0x00200000 == 0 {
             inode.access_timestamp = bytes_to_i32_le!(data, 8);
-            if inode.access_timestamp > 0 {
+            if inode.access_timestamp != 0 {
                 inode.access_time = DateTime::PosixTime32(PosixTime32::new(inode.access_timestamp));
             }
             inode.change_timestamp = bytes_to_i32_le!(data, 12);
-            if inode.change_timestamp > 0 {
+            if inode.change_timestamp != 0 {
                 inode.change_time = DateTime::PosixTime32(PosixTime32::new(inode.change_timestamp));
             }
             inode.modification_timestamp = bytes_to_i32_le!(data, 16);
-            if inode.modification_timestamp > 0 {
+            if inode.modification_timestamp != 0 {
                 inode.modification_time =
                     DateTime::PosixTime32(PosixTime32::new(inode.modification_timestamp));
             }
             let timestamp: i32 = bytes_to_i32_le!(data, 20);
-            if timestamp > 0 {
+            if timestamp != 0 {
                 inode.deletion_time = DateTime::PosixTime32(PosixTime32::new(timestamp));
             }
         }
diff --git a/keramics-formats/src/ext/inode_extension_ext4.rs b/keramics-formats/src/ext/inode_extension_ext4.rs
index 1f8e848..353356b 100644
--- a/keramics-formats/src/ext/inode_extension_ext4.rs
+++ b/keramics-formats/src/ext/inode_extension_ext4.rs
@@ -68,7 +68,7 @@ impl Ext4InodeExtension {
                 let (timestamp, fraction): (i64, u32) =
                     Self::get_extra_precision_timestamp(inode.change_timestamp, extra_precision);
 
-                if timestamp > 0 {
+                if timestamp != 0 {
                     inode.change_time =
                         DateTime::PosixTime64Ns(PosixTime64Ns::new(timestamp, fraction));
                 }
@@ -80,7 +80,7 @@ impl Ext4InodeExtension {
                     extra_precision,
                 );
 
-                if timestamp > 0 {
+                if timestamp != 0 {
                     inode.modification_time =
                         DateTime::PosixTime64Ns(PosixTime64Ns::new(timestamp, fraction));
                 }
@@ -90,7 +90,7 @@ impl Ext4InodeExtension {
                 let (timestamp, fraction): (i64, u32) =
                     Self::get_extra_precision_timestamp(inode.access_timestamp, extra_precision);
 
-                if timestamp > 0 {
+                if timestamp != 0 {
                     inode.access_time =
                         DateTime::PosixTime64Ns(PosixTime64Ns::new(timestamp, fraction));
                 }
@@ -102,7 +102,7 @@ impl Ext4InodeExtension {
             let (extra_precision_timestamp, fraction): (i64, u32) =
                 Self::get_extra_precision_timestamp(timestamp, extra_precision);
 
-            if timestamp > 0 {
+            if extra_precision_timestamp != 0 {
                 inode.creation_time = Some(DateTime::PosixTime64Ns(PosixTime64Ns::new(
                     extra_precision_timestamp,
                     fraction,
diff --git a/keramics-formats/src/ext/inode_table.rs b/keramics-formats/src/ext/inode_table.rs
index d656bbc..e9bf938 100644
--- a/keramics-formats/src/ext/inode_table.rs
+++ b/keramics-formats/src/ext/inode_table.rs
@@ -16,6 +16,7 @@ use std::io::SeekFrom;
 use keramics_checksums::ReversedCrc32Context;
 use keramics_core::mediator::{Mediator, MediatorReference};
 use keramics_core::{DataStreamReference, ErrorTrace};
+use keramics_types::bytes_to_u16_le;
 
 use crate::block_tree::BlockTree;
 
@@ -108,6 +109,12 @@ impl ExtInodeTable {
         data_stream: &DataStreamReference,
         inode_number: u32,
     ) -> Result<ExtInode, ErrorTrace> {
+        if inode_number == 0 {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid inode number: {} value out of bounds",
+                inode_number
+            )));
+        }
         let inode_table_offset: u64 = ((inode_number - 1) as u64) * (self.inode_size as u64);
 
         let group_descriptor: &ExtGroupDescriptor =
@@ -122,8 +129,20 @@ impl ExtInodeTable {
             };
         let inode_group_index: u32 = (inode_number - 1) % self.number_of_inodes_per_block_group;
 
-        let mut inode_data_offset: u64 = (inode_group_index as u64) * (self.inode_size as u64);
-        inode_data_offset += group_descriptor.inode_table_block_number * (self.block_size as u64);
+        let inode_data_offset: u64 = match group_descriptor
+            .inode_table_block_number
+            .checked_mul(self.block_size as u64)
+            .and_then(|offset| {
+                offset.checked_add((inode_group_index as u64) * (self.inode_size as u64))
+            }) {
+            Some(offset) => offset,
+            None => {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Invalid inode table block number: {} value out of bounds",
+                    group_descriptor.inode_table_block_number
+                )));
+            }
+        };
 
         let inode_size: usize = self.inode_size as usize;
         let mut data: Vec<u8> = vec![0; inode_size];
@@ -165,15 +184,20 @@ impl ExtInodeTable {
                 crc32_context.update(&[0; 2]);
                 crc32_context.update(&data[126..128]);
 
-                if inode_size > 128 {
+                // The upper part of the checksum is only stored if there is room for it.
+                let has_checksum_upper: bool = inode_size > 128 && bytes_to_u16_le!(data, 128) >= 4;
+
+                if has_checksum_upper {
                     crc32_context.update(&data[128..130]);
                     crc32_context.update(&[0; 2]);
                     crc32_context.update(&data[132..inode_size]);
+                } else {
+                    crc32_context.update(&data[128..inode_size]);
                 }
                 let mut calculated_checksum: u32 = crc32_context.finalize();
                 calculated_checksum = 0xffffffff - calculated_checksum;
 
-                if inode_size <= 128 {
+                if !has_checksum_upper {
                     calculated_checksum &= 0x0000ffff;
                 }
                 if inode.checksum != 0 && (inode.checksum as u32) != calculated_checksum {
diff --git a/keramics-formats/src/ext/superblock.rs b/keramics-formats/src/ext/superblock.rs
index 9ed7ebe..b794f68 100644
--- a/keramics-formats/src/ext/superblock.rs
+++ b/keramics-formats/src/ext/superblock.rs
@@ -144,6 +144,9 @@ pub struct ExtSuperblock {
     /// Number of blocks.
     pub number_of_blocks: u64,
 
+    /// First data block number.
+    pub first_data_block_number: u32,
+
     /// Block size.
     pub block_size: u32,
 
@@ -202,6 +205,7 @@ impl ExtSuperblock {
         Self {
             number_of_inodes: 0,
             number_of_blocks: 0,
+            first_data_block_number: 0,
             block_size: 0,
             number_of_blocks_per_block_group: 0,
             number_of_inodes_per_block_group: 0,
@@ -257,9 +261,18 @@ impl ExtSuperblock {
                 self.number_of_blocks
             )));
         }
+        self.first_data_block_number = bytes_to_u32_le!(data, 20);
+
+        if self.first_data_block_number as u64 >= self.number_of_blocks {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid first data block number: {} value out of bounds",
+                self.first_data_block_number
+            )));
+        }
         self.block_size = bytes_to_u32_le!(data, 24);
 
-        if self.block_size > 32 - 10 {
+        // The block size is 65536 at most.
+        if self.block_size > 6 {
             return Err(keramics_core::error_trace_new!(format!(
                 "Invalid block size: {} value out of bounds",
                 self.block_size
@@ -285,14 +298,36 @@ impl ExtSuperblock {
                 )));
             }
         }
+        // The inodes of a block group are tracked in a bitmap of a single block.
+        if self.number_of_inodes_per_block_group > 8 * self.block_size {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid number of inodes per block group: {} value out of bounds",
+                self.number_of_inodes_per_block_group
+            )));
+        }
         self.last_mount_time = PosixTime32::from_le_bytes(&data[44..48]);
         self.last_written_time = PosixTime32::from_le_bytes(&data[48..52]);
-        self.inode_size = bytes_to_u16_le!(data, 88);
+        self.inode_size = match self.format_revision {
+            0 => 128,
+            _ => bytes_to_u16_le!(data, 88),
+        };
+        if self.inode_size < 128
+            || !self.inode_size.is_power_of_two()
+            || self.inode_size as u32 > self.block_size
+        {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid inode size: {} value out of bounds",
+                self.inode_size
+            )));
+        }
         self.group_descriptor_size = bytes_to_u16_le!(data, 254);
         self.first_meta_block_group = bytes_to_u32_le!(data, 260);
         self.file_system_identifier.copy_from_slice(&data[104..120]);
-        self.volume_label = ByteString::from(&data[120..136]);
-        self.last_mount_path = ByteString::from(&data[136..200]);
+        self.volume_label.elements.clear();
+        self.volume_label.read_data(&data[120..136]);
+
+        self.last_mount_path.elements.clear();
+        self.last_mount_path.read_data(&data[136..200]);
 
         let number_of_block_groups_per_flex_group: u8 = data[372];
         if number_of_block_groups_per_flex_group >= 16 {
@@ -347,7 +382,7 @@ impl ExtSuperblock {
 
     /// Retrieves the number of block groups.
     pub fn get_number_of_block_groups(&self) -> u64 {
-        self.number_of_blocks
+        (self.number_of_blocks - (self.first_data_block_number as u64))
             .div_ceil(self.number_of_blocks_per_block_group as u64)
     }
 }
-- 
2.43.0


From 42e873cb51b416e7392c8be5535f214785e54490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:09 +0000
Subject: [PATCH 30/48] fix: NTFS attribute bounds and merging, allocation
 state, index trees, attribute lists, compressed and overlay data as the
 format describes

---
 keramics-formats/src/ntfs/attribute_list.rs   |  63 ++++---
 keramics-formats/src/ntfs/block_stream.rs     |  33 +++-
 keramics-formats/src/ntfs/boot_record.rs      |   4 +-
 .../src/ntfs/compressed_stream.rs             |  32 +++-
 keramics-formats/src/ntfs/constants.rs        |   3 +
 keramics-formats/src/ntfs/data_run.rs         |  28 ++-
 .../src/ntfs/directory_entries.rs             |   2 +-
 keramics-formats/src/ntfs/directory_index.rs  | 164 ++++++++++++------
 keramics-formats/src/ntfs/file_entry.rs       |   5 +-
 keramics-formats/src/ntfs/file_name.rs        |   2 +-
 keramics-formats/src/ntfs/index.rs            |  40 ++++-
 .../src/ntfs/junction_reparse_data.rs         |   4 +-
 .../src/ntfs/master_file_table.rs             |  57 ++++--
 keramics-formats/src/ntfs/mft_attribute.rs    |  24 ++-
 keramics-formats/src/ntfs/mft_attributes.rs   |   2 +-
 keramics-formats/src/ntfs/mft_entry.rs        |   6 +-
 keramics-formats/src/ntfs/mft_entry_header.rs |   5 +
 keramics-formats/src/ntfs/reparse_point.rs    |   1 +
 .../src/ntfs/symbolic_link_reparse_data.rs    |   4 +-
 .../src/ntfs/wof_compressed_stream.rs         |  35 ++--
 20 files changed, 376 insertions(+), 138 deletions(-)

diff --git a/keramics-formats/src/ntfs/attribute_list.rs b/keramics-formats/src/ntfs/attribute_list.rs
index d684384..1b8c270 100644
--- a/keramics-formats/src/ntfs/attribute_list.rs
+++ b/keramics-formats/src/ntfs/attribute_list.rs
@@ -11,6 +11,8 @@
  * under the License.
  */
 
+use std::io::SeekFrom;
+
 use keramics_core::mediator::Mediator;
 use keramics_core::{DataStream, DataStreamReference, ErrorTrace};
 
@@ -60,7 +62,15 @@ impl NtfsAttributeList {
             // TODO: read name.
             // TODO: print remaining data.
 
-            data_offset += entry.attribute_size as usize;
+            let entry_size: usize = entry.attribute_size as usize;
+
+            if entry_size < 26 || entry_size > data_size - data_offset {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Invalid attribute list entry size: {} value out of bounds",
+                    entry_size
+                )));
+            }
+            data_offset += entry_size;
 
             self.entries.push(entry);
         }
@@ -106,31 +116,34 @@ impl NtfsAttributeList {
                     return Err(error);
                 }
             }
-            let mut cluster_block: Vec<u8> = vec![0; cluster_block_size as usize];
-
-            loop {
-                let read_count: usize = match block_stream.read(&mut cluster_block) {
-                    Ok(read_count) => read_count,
-                    Err(mut error) => {
-                        keramics_core::error_trace_add_frame!(
-                            error,
-                            "Unable to read attribute list from block stream"
-                        );
-                        return Err(error);
-                    }
-                };
-                if read_count == 0 {
-                    break;
+            // Note that 16777216 is an arbitrary chosen limit.
+            if data_attribute.data_size > 16777216 {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Unsupported attribute list size: {} value out of bounds",
+                    data_attribute.data_size
+                )));
+            }
+            // Note that an attribute list entry can be stored across cluster blocks.
+            let mut data: Vec<u8> = vec![0; data_attribute.data_size as usize];
+
+            match block_stream.read_exact_at_position(&mut data, SeekFrom::Start(0)) {
+                Ok(_) => {}
+                Err(mut error) => {
+                    keramics_core::error_trace_add_frame!(
+                        error,
+                        "Unable to read attribute list from block stream"
+                    );
+                    return Err(error);
                 }
-                match self.read_data(&cluster_block[..read_count]) {
-                    Ok(_) => {}
-                    Err(mut error) => {
-                        keramics_core::error_trace_add_frame!(
-                            error,
-                            "Unable to read non-resident attribute list"
-                        );
-                        return Err(error);
-                    }
+            }
+            match self.read_data(&data) {
+                Ok(_) => {}
+                Err(mut error) => {
+                    keramics_core::error_trace_add_frame!(
+                        error,
+                        "Unable to read non-resident attribute list"
+                    );
+                    return Err(error);
                 }
             }
         }
diff --git a/keramics-formats/src/ntfs/block_stream.rs b/keramics-formats/src/ntfs/block_stream.rs
index 1d2713a..9f01f0b 100644
--- a/keramics-formats/src/ntfs/block_stream.rs
+++ b/keramics-formats/src/ntfs/block_stream.rs
@@ -67,12 +67,27 @@ impl NtfsBlockStream {
                 "Unsupported resident $DATA attribute"
             ));
         }
-        let block_tree_size: u64 = data_attribute
+        if data_attribute.data_size > i64::MAX as u64 {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid data size: {} value out of bounds",
+                data_attribute.data_size
+            )));
+        }
+        let block_tree_size: u64 = match data_attribute
             .allocated_data_size
             .div_ceil(self.cluster_block_size as u64)
-            * (self.cluster_block_size as u64);
+            .checked_mul(self.cluster_block_size as u64)
+        {
+            Some(block_tree_size) if block_tree_size <= i64::MAX as u64 => block_tree_size,
+            _ => {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Invalid allocated data size: {} value out of bounds",
+                    data_attribute.allocated_data_size
+                )));
+            }
+        };
         self.block_tree =
-            BlockTree::<NtfsBlockRange>::new(block_tree_size, 0, self.cluster_block_size as u64);
+            BlockTree::<NtfsBlockRange>::new(block_tree_size, 256, self.cluster_block_size as u64);
 
         if data_attribute.allocated_data_size > 0 {
             let mut virtual_cluster_number: u64 = 0;
@@ -86,8 +101,16 @@ impl NtfsBlockStream {
                     )));
                 }
                 for data_run in cluster_group.data_runs.iter() {
-                    let range_size: u64 =
-                        data_run.number_of_blocks * (self.cluster_block_size as u64);
+                    let range_size: u64 = match data_run.get_size(self.cluster_block_size) {
+                        Ok(range_size) => range_size,
+                        Err(mut error) => {
+                            keramics_core::error_trace_add_frame!(
+                                error,
+                                "Unable to determine data run size"
+                            );
+                            return Err(error);
+                        }
+                    };
 
                     let range_type: NtfsBlockRangeType = match &data_run.run_type {
                         NtfsDataRunType::InFile => NtfsBlockRangeType::InFile,
diff --git a/keramics-formats/src/ntfs/boot_record.rs b/keramics-formats/src/ntfs/boot_record.rs
index 79b7af5..104197e 100644
--- a/keramics-formats/src/ntfs/boot_record.rs
+++ b/keramics-formats/src/ntfs/boot_record.rs
@@ -148,7 +148,7 @@ impl NtfsBootRecord {
         } else {
             // The size is calculated as: 2 ^ ( 256 - value ).
             let exponent: u32 = 256 - mft_entry_size;
-            if exponent > 32 {
+            if exponent > 31 {
                 return Err(keramics_core::error_trace_new!(format!(
                     "Unsupported MFT entry size: {} value out of bounds",
                     mft_entry_size
@@ -181,7 +181,7 @@ impl NtfsBootRecord {
         } else {
             // The size is calculated as: 2 ^ ( 256 - value ).
             let exponent: u32 = 256 - index_entry_size;
-            if exponent > 32 {
+            if exponent > 31 {
                 return Err(keramics_core::error_trace_new!(format!(
                     "Unsupported index entry size: {} value out of bounds",
                     index_entry_size
diff --git a/keramics-formats/src/ntfs/compressed_stream.rs b/keramics-formats/src/ntfs/compressed_stream.rs
index 3c1e159..a6bff3d 100644
--- a/keramics-formats/src/ntfs/compressed_stream.rs
+++ b/keramics-formats/src/ntfs/compressed_stream.rs
@@ -52,6 +52,9 @@ pub struct NtfsCompressedStream {
 
     /// The size.
     size: u64,
+
+    /// The valid data size.
+    valid_data_size: u64,
 }
 
 impl NtfsCompressedStream {
@@ -66,6 +69,7 @@ impl NtfsCompressedStream {
             block_cache: LruCache::new(8),
             current_offset: 0,
             size: 0,
+            valid_data_size: 0,
         }
     }
 
@@ -104,6 +108,14 @@ impl NtfsCompressedStream {
         self.compression_unit_size =
             (data_attribute.compression_unit_size as usize) * (self.cluster_block_size as usize);
 
+        // Note that 33554432 is an arbitrary chosen limit, given 16 clusters per compression unit and
+        // 2048 KiB is the largest known cluster block size.
+        if self.compression_unit_size > 33554432 {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Unsupported compression unit size: {} value out of bounds",
+                self.compression_unit_size
+            )));
+        }
         if data_attribute.allocated_data_size % (self.compression_unit_size as u64) != 0 {
             return Err(keramics_core::error_trace_new!(
                 "Unsupported allocated data size not a multitude of compression unit size"
@@ -115,7 +127,7 @@ impl NtfsCompressedStream {
             * (self.compression_unit_size as u64);
         self.block_tree = BlockTree::<NtfsCompressionRange>::new(
             block_tree_size,
-            0,
+            256,
             self.compression_unit_size as u64,
         );
 
@@ -207,7 +219,8 @@ impl NtfsCompressedStream {
                 };
             }
         }
-        self.size = data_attribute.valid_data_size;
+        self.size = data_attribute.data_size;
+        self.valid_data_size = data_attribute.valid_data_size;
 
         Ok(())
     }
@@ -222,6 +235,12 @@ impl NtfsCompressedStream {
             if current_offset >= self.size {
                 break;
             }
+            if current_offset >= self.valid_data_size {
+                // Data after the valid data size is read as 0-byte values.
+                data[data_offset..].fill(0);
+
+                return Ok(read_size);
+            }
             let compression_unit: &NtfsCompressionRange =
                 match self.block_tree.get_value(current_offset) {
                     Some(value) => value,
@@ -236,7 +255,10 @@ impl NtfsCompressedStream {
             let range_size: u64 = compression_unit.size;
 
             let range_relative_offset: u64 = current_offset - range_offset;
-            let range_end_offset: u64 = min(range_offset + range_size, self.size);
+            let range_end_offset: u64 = min(
+                range_offset + range_size,
+                min(self.valid_data_size, self.size),
+            );
 
             let range_remainder_size: u64 =
                 (range_end_offset - range_offset) - range_relative_offset;
@@ -247,10 +269,6 @@ impl NtfsCompressedStream {
             let data_end_offset: usize = data_offset + range_read_size;
             let read_count: usize = match compression_unit.range_type {
                 NtfsCompressionRangeType::Compressed => {
-                    let range_read_size: usize =
-                        min(read_remainder_size, self.compression_unit_size);
-                    let data_end_offset: usize = data_offset + range_read_size;
-
                     if !self.block_cache.contains(&range_offset) {
                         let data_stream: &DataStreamReference = match self.data_stream.as_ref() {
                             Some(data_stream) => data_stream,
diff --git a/keramics-formats/src/ntfs/constants.rs b/keramics-formats/src/ntfs/constants.rs
index ecdaa82..c5ddc1d 100644
--- a/keramics-formats/src/ntfs/constants.rs
+++ b/keramics-formats/src/ntfs/constants.rs
@@ -21,6 +21,9 @@ pub(super) const NTFS_MFT_ENTRY_SIGNATURE: [u8; 4] = [0x46, 0x49, 0x4c, 0x45];
 /// NTFS bad MFT entry signature: "BAAD".
 pub(super) const NTFS_BAD_MFT_ENTRY_SIGNATURE: [u8; 4] = [0x42, 0x41, 0x41, 0x44];
 
+/// NTFS MFT entry flag to indicate the MFT entry is in use.
+pub(super) const NTFS_MFT_ENTRY_FLAG_IN_USE: u16 = 0x0001;
+
 /// NTFS index entry signature: "INDX".
 pub(super) const NTFS_INDEX_ENTRY_SIGNATURE: [u8; 4] = [0x49, 0x4e, 0x44, 0x58];
 
diff --git a/keramics-formats/src/ntfs/data_run.rs b/keramics-formats/src/ntfs/data_run.rs
index de0d109..55eb13f 100644
--- a/keramics-formats/src/ntfs/data_run.rs
+++ b/keramics-formats/src/ntfs/data_run.rs
@@ -44,6 +44,24 @@ impl NtfsDataRun {
         }
     }
 
+    /// Retrieves the size of the data run.
+    pub fn get_size(&self, cluster_block_size: u32) -> Result<u64, ErrorTrace> {
+        let end_offset: Option<u64> = self
+            .block_number
+            .checked_add(self.number_of_blocks)
+            .and_then(|block_number| block_number.checked_mul(cluster_block_size as u64));
+
+        match end_offset {
+            Some(end_offset) if self.number_of_blocks > 0 && end_offset <= i64::MAX as u64 => {
+                Ok(self.number_of_blocks * (cluster_block_size as u64))
+            }
+            _ => Err(keramics_core::error_trace_new!(format!(
+                "Invalid data run - block number: {} and number of blocks: {} value out of bounds",
+                self.block_number, self.number_of_blocks
+            ))),
+        }
+    }
+
     /// Reads the data run from a buffer.
     pub fn read_data(&mut self, data: &[u8], last_block_number: u64) -> Result<usize, ErrorTrace> {
         let data_size: usize = data.len();
@@ -109,8 +127,14 @@ impl NtfsDataRun {
                 block_number <<= 8;
                 block_number |= *byte_value as i64;
             }
-            block_number += last_block_number as i64;
-
+            block_number = match block_number.checked_add(last_block_number as i64) {
+                Some(block_number) if block_number >= 0 => block_number,
+                _ => {
+                    return Err(keramics_core::error_trace_new!(
+                        "Invalid block number value out of bounds"
+                    ));
+                }
+            };
             self.block_number = block_number as u64;
         }
         data_offset += block_number_size;
diff --git a/keramics-formats/src/ntfs/directory_entries.rs b/keramics-formats/src/ntfs/directory_entries.rs
index 270b3d5..77292ef 100644
--- a/keramics-formats/src/ntfs/directory_entries.rs
+++ b/keramics-formats/src/ntfs/directory_entries.rs
@@ -42,7 +42,7 @@ impl NtfsDirectoryEntries {
     /// Adds an entry.
     pub fn add(&mut self, file_reference: u64, file_name: NtfsFileName) -> Result<(), ErrorTrace> {
         // TODO: preserve self $FILE_NAME entry.
-        if file_name.name_size == 1 && file_name.name.elements[0] == 0x002e {
+        if file_name.name.elements == [0x002e] {
             // Ignore "."
         } else if file_name.name_space == NTFS_NAME_SPACE_DOS {
             if self.short_names.contains_key(&file_reference) {
diff --git a/keramics-formats/src/ntfs/directory_index.rs b/keramics-formats/src/ntfs/directory_index.rs
index 2739c48..2d2c85e 100644
--- a/keramics-formats/src/ntfs/directory_index.rs
+++ b/keramics-formats/src/ntfs/directory_index.rs
@@ -12,7 +12,7 @@
  */
 
 use std::cmp::Ordering;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::sync::Arc;
 
 use keramics_core::mediator::{Mediator, MediatorReference};
@@ -33,6 +33,9 @@ use super::mft_attribute_group::NtfsMftAttributeGroup;
 use super::mft_attributes::NtfsMftAttributes;
 use super::standard_information::NtfsStandardInformation;
 
+/// Maximum recursion depth, which is an arbitrary chosen limit.
+const MAXIMUM_RECURSION_DEPTH: usize = 64;
+
 /// New Technologies File System (NTFS) directory index.
 pub struct NtfsDirectoryIndex {
     /// Mediator.
@@ -185,19 +188,17 @@ impl NtfsDirectoryIndex {
                 "Directory index was not initialized"
             ));
         }
-        if self.use_case_folding {
-            let case_folded_name: Ucs2String =
-                Ucs2String::new_with_case_folding(name, &self.case_folding_mappings);
-
-            self.get_directory_entry_by_name_from_node(
-                &self.root_node_data,
-                16,
-                data_stream,
-                &case_folded_name,
-            )
-        } else {
-            self.get_directory_entry_by_name_from_node(&self.root_node_data, 16, data_stream, name)
-        }
+        let case_folded_name: Ucs2String =
+            Ucs2String::new_with_case_folding(name, &self.case_folding_mappings);
+
+        self.get_directory_entry_by_name_from_node(
+            &self.root_node_data,
+            16,
+            data_stream,
+            name,
+            &case_folded_name,
+            &mut HashSet::new(),
+        )
     }
 
     /// Retrieves a directory entry by name from an index node.
@@ -207,7 +208,14 @@ impl NtfsDirectoryIndex {
         index_node_offset: usize,
         data_stream: &DataStreamReference,
         name: &Ucs2String,
+        case_folded_name: &Ucs2String,
+        visited_nodes: &mut HashSet<u64>,
     ) -> Result<Option<NtfsDirectoryEntry>, ErrorTrace> {
+        if visited_nodes.len() > MAXIMUM_RECURSION_DEPTH {
+            return Err(keramics_core::error_trace_new!(
+                "Maximum recursion depth exceeded"
+            ));
+        }
         let (index_node_size, index_values_offset): (usize, usize) = match self
             .read_index_node_header(data, index_node_offset)
         {
@@ -270,15 +278,17 @@ impl NtfsDirectoryIndex {
                         return Err(error);
                     }
                 };
-            let result: Ordering = if self.use_case_folding {
-                let case_folded_name: Ucs2String =
-                    Ucs2String::new_with_case_folding(&file_name.name, &self.case_folding_mappings);
-
-                // TODO: add a compare_with_case_folding
-                case_folded_name.compare(name)
-            } else {
-                file_name.name.compare(name)
-            };
+            let case_folded_file_name: Ucs2String =
+                Ucs2String::new_with_case_folding(&file_name.name, &self.case_folding_mappings);
+
+            // TODO: add a compare_with_case_folding
+            let mut result: Ordering = case_folded_file_name.compare(case_folded_name);
+
+            // Note that names in a case-sensitive directory that only differ in case are stored in
+            // case-sensitive order.
+            if result == Ordering::Equal && !self.use_case_folding {
+                result = file_name.name.compare(name);
+            }
             if result == Ordering::Equal {
                 let directory_entry: NtfsDirectoryEntry =
                     NtfsDirectoryEntry::new(index_value.file_reference, file_name);
@@ -287,6 +297,7 @@ impl NtfsDirectoryIndex {
             if result == Ordering::Greater && is_branch {
                 break;
             }
+            is_branch = false;
             index_value_offset += value_data_size;
 
             let alignment_padding: usize = index_value_offset % 8;
@@ -310,19 +321,26 @@ impl NtfsDirectoryIndex {
                 };
             // TODO: skip if sub node is not allocated.
 
-            let index_entry: NtfsIndexEntry = match self
-                .index
-                .get_entry_at_cluster_block(data_stream, sub_node_vcn)
-            {
-                Ok(index_entry) => index_entry,
-                Err(mut error) => {
-                    keramics_core::error_trace_add_frame!(error, "Unable to retrieve index entry");
-                    return Err(error);
-                }
-            };
+            let index_entry: NtfsIndexEntry =
+                match self.get_sub_node(data_stream, sub_node_vcn, visited_nodes) {
+                    Ok(index_entry) => index_entry,
+                    Err(mut error) => {
+                        keramics_core::error_trace_add_frame!(
+                            error,
+                            "Unable to retrieve index entry"
+                        );
+                        return Err(error);
+                    }
+                };
             let result: Option<NtfsDirectoryEntry> = match self
-                .get_directory_entry_by_name_from_node(&index_entry.data, 24, data_stream, name)
-            {
+                .get_directory_entry_by_name_from_node(
+                    &index_entry.data,
+                    24,
+                    data_stream,
+                    name,
+                    case_folded_name,
+                    visited_nodes,
+                ) {
                 Ok(result) => result,
                 Err(mut error) => {
                     keramics_core::error_trace_add_frame!(
@@ -362,6 +380,48 @@ impl NtfsDirectoryIndex {
         data_stream: &DataStreamReference,
         entries: &mut NtfsDirectoryEntries,
     ) -> Result<(), ErrorTrace> {
+        self.read_directory_entries_from_node(
+            data,
+            index_node_offset,
+            data_stream,
+            entries,
+            0,
+            &mut HashSet::new(),
+        )
+    }
+
+    /// Retrieves a sub node.
+    fn get_sub_node(
+        &self,
+        data_stream: &DataStreamReference,
+        sub_node_vcn: u64,
+        visited_nodes: &mut HashSet<u64>,
+    ) -> Result<NtfsIndexEntry, ErrorTrace> {
+        if !visited_nodes.insert(sub_node_vcn) {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid sub node: {} already visited",
+                sub_node_vcn
+            )));
+        }
+        self.index
+            .get_entry_at_cluster_block(data_stream, sub_node_vcn)
+    }
+
+    /// Reads the directory entries from an index node.
+    fn read_directory_entries_from_node(
+        &self,
+        data: &[u8],
+        index_node_offset: usize,
+        data_stream: &DataStreamReference,
+        entries: &mut NtfsDirectoryEntries,
+        recursion_depth: usize,
+        visited_nodes: &mut HashSet<u64>,
+    ) -> Result<(), ErrorTrace> {
+        if recursion_depth > MAXIMUM_RECURSION_DEPTH {
+            return Err(keramics_core::error_trace_new!(
+                "Maximum recursion depth exceeded"
+            ));
+        }
         let (index_node_size, index_values_offset): (usize, usize) = match self
             .read_index_node_header(data, index_node_offset)
         {
@@ -420,24 +480,24 @@ impl NtfsDirectoryIndex {
                     };
                 // TODO: skip if sub node is not allocated.
 
-                let index_entry: NtfsIndexEntry = match self
-                    .index
-                    .get_entry_at_cluster_block(data_stream, sub_node_vcn)
-                {
-                    Ok(index_entry) => index_entry,
-                    Err(mut error) => {
-                        keramics_core::error_trace_add_frame!(
-                            error,
-                            "Unable to retrieve index entry"
-                        );
-                        return Err(error);
-                    }
-                };
-                match self.get_directory_entries_from_node(
+                let index_entry: NtfsIndexEntry =
+                    match self.get_sub_node(data_stream, sub_node_vcn, visited_nodes) {
+                        Ok(index_entry) => index_entry,
+                        Err(mut error) => {
+                            keramics_core::error_trace_add_frame!(
+                                error,
+                                "Unable to retrieve index entry"
+                            );
+                            return Err(error);
+                        }
+                    };
+                match self.read_directory_entries_from_node(
                     &index_entry.data,
                     24,
                     data_stream,
                     entries,
+                    recursion_depth + 1,
+                    visited_nodes,
                 ) {
                     Ok(_) => {}
                     Err(mut error) => {
@@ -573,7 +633,7 @@ impl NtfsDirectoryIndex {
         }
         let index_node_size: usize = index_node_header.size as usize;
 
-        if index_node_size > data.len() {
+        if index_node_size > data.len() - index_node_offset {
             return Err(keramics_core::error_trace_new!(format!(
                 "Invalid index node size: {} value out of bounds",
                 index_node_header.size
@@ -628,7 +688,9 @@ impl NtfsDirectoryIndex {
         }
         let value_data_size: usize = index_value.size as usize;
 
-        if value_data_size > data.len() - index_value_offset {
+        if value_data_size < 16 + (index_value.key_data_size as usize)
+            || value_data_size > index_values_end_offset - index_value_offset
+        {
             return Err(keramics_core::error_trace_new!(format!(
                 "Invalid index value size: {} value out of bounds",
                 index_value.size,
diff --git a/keramics-formats/src/ntfs/file_entry.rs b/keramics-formats/src/ntfs/file_entry.rs
index 468584f..850e2c0 100644
--- a/keramics-formats/src/ntfs/file_entry.rs
+++ b/keramics-formats/src/ntfs/file_entry.rs
@@ -664,9 +664,11 @@ impl NtfsFileEntry {
                 }
             }
         }
+        let mut sub_directory_entries: NtfsDirectoryEntries = NtfsDirectoryEntries::new();
+
         match self
             .directory_index
-            .get_directory_entries(&self.data_stream, &mut self.sub_directory_entries)
+            .get_directory_entries(&self.data_stream, &mut sub_directory_entries)
         {
             Ok(_) => {}
             Err(mut error) => {
@@ -677,6 +679,7 @@ impl NtfsFileEntry {
                 return Err(error);
             }
         }
+        self.sub_directory_entries = sub_directory_entries;
         self.read_sub_directory_entries = true;
 
         Ok(())
diff --git a/keramics-formats/src/ntfs/file_name.rs b/keramics-formats/src/ntfs/file_name.rs
index 6d30962..ce06c31 100644
--- a/keramics-formats/src/ntfs/file_name.rs
+++ b/keramics-formats/src/ntfs/file_name.rs
@@ -138,7 +138,7 @@ impl NtfsFileName {
         self.name_size = data[64];
         self.name_space = data[65];
 
-        if data_size > 66 {
+        if self.name_size > 0 {
             let data_end_offset: usize = 66 + (self.name_size as usize) * 2;
 
             if data_end_offset > data_size {
diff --git a/keramics-formats/src/ntfs/index.rs b/keramics-formats/src/ntfs/index.rs
index 997c20a..9839e9e 100644
--- a/keramics-formats/src/ntfs/index.rs
+++ b/keramics-formats/src/ntfs/index.rs
@@ -50,7 +50,16 @@ impl NtfsIndex {
         data_stream: &DataStreamReference,
         virtual_cluster_number: u64,
     ) -> Result<NtfsIndexEntry, ErrorTrace> {
-        let virtual_cluster_offset: u64 = virtual_cluster_number * (self.cluster_block_size as u64);
+        let virtual_cluster_offset: u64 =
+            match virtual_cluster_number.checked_mul(self.cluster_block_size as u64) {
+                Some(virtual_cluster_offset) => virtual_cluster_offset,
+                None => {
+                    return Err(keramics_core::error_trace_new!(format!(
+                        "Invalid VCN: {} value out of bounds",
+                        virtual_cluster_number
+                    )));
+                }
+            };
 
         let block_range: &NtfsBlockRange = match self.block_tree.get_value(virtual_cluster_offset) {
             Some(value) => value,
@@ -114,11 +123,21 @@ impl NtfsIndex {
                 "Unsupported compressed $INDEX_ALLOCATION attribute"
             ));
         }
-        let block_tree_size: u64 = (index_allocation_attribute.allocated_data_size
-            / (self.cluster_block_size as u64))
-            * (self.cluster_block_size as u64);
+        let block_tree_size: u64 = match index_allocation_attribute
+            .allocated_data_size
+            .div_ceil(self.cluster_block_size as u64)
+            .checked_mul(self.cluster_block_size as u64)
+        {
+            Some(block_tree_size) if block_tree_size <= i64::MAX as u64 => block_tree_size,
+            _ => {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Invalid allocated data size: {} value out of bounds",
+                    index_allocation_attribute.allocated_data_size
+                )));
+            }
+        };
         self.block_tree =
-            BlockTree::<NtfsBlockRange>::new(block_tree_size, 0, self.cluster_block_size as u64);
+            BlockTree::<NtfsBlockRange>::new(block_tree_size, 256, self.cluster_block_size as u64);
 
         let mut virtual_cluster_number: u64 = 0;
         let mut virtual_cluster_offset: u64 = 0;
@@ -131,7 +150,16 @@ impl NtfsIndex {
                 )));
             }
             for data_run in cluster_group.data_runs.iter() {
-                let range_size: u64 = data_run.number_of_blocks * (self.cluster_block_size as u64);
+                let range_size: u64 = match data_run.get_size(self.cluster_block_size) {
+                    Ok(range_size) => range_size,
+                    Err(mut error) => {
+                        keramics_core::error_trace_add_frame!(
+                            error,
+                            "Unable to determine data run size"
+                        );
+                        return Err(error);
+                    }
+                };
 
                 let range_type: NtfsBlockRangeType = match &data_run.run_type {
                     NtfsDataRunType::InFile => NtfsBlockRangeType::InFile,
diff --git a/keramics-formats/src/ntfs/junction_reparse_data.rs b/keramics-formats/src/ntfs/junction_reparse_data.rs
index 80a62b2..2d01ccb 100644
--- a/keramics-formats/src/ntfs/junction_reparse_data.rs
+++ b/keramics-formats/src/ntfs/junction_reparse_data.rs
@@ -58,7 +58,7 @@ impl NtfsJunctionReparseData {
 
         let data_offset: usize = (substitute_name_offset as usize) + 8;
 
-        if data_offset >= data_size {
+        if data_offset > data_size {
             return Err(keramics_core::error_trace_new!(
                 "Invalid substitute name offset value out of bounds"
             ));
@@ -78,7 +78,7 @@ impl NtfsJunctionReparseData {
 
         let data_offset: usize = (display_name_offset as usize) + 8;
 
-        if data_offset >= data_size {
+        if data_offset > data_size {
             return Err(keramics_core::error_trace_new!(
                 "Invalid display name offset value out of bounds"
             ));
diff --git a/keramics-formats/src/ntfs/master_file_table.rs b/keramics-formats/src/ntfs/master_file_table.rs
index faecbde..85042d5 100644
--- a/keramics-formats/src/ntfs/master_file_table.rs
+++ b/keramics-formats/src/ntfs/master_file_table.rs
@@ -56,11 +56,30 @@ impl NtfsMasterFileTable {
     /// Adds a cluster group to the master file table.
     fn add_cluster_group(&mut self, cluster_group: &NtfsClusterGroup) -> Result<(), ErrorTrace> {
         let mut virtual_cluster_number: u64 = cluster_group.first_vcn;
-        let mut virtual_cluster_offset: u64 =
-            cluster_group.first_vcn * (self.cluster_block_size as u64);
+        let mut virtual_cluster_offset: u64 = match cluster_group
+            .first_vcn
+            .checked_mul(self.cluster_block_size as u64)
+        {
+            Some(offset) if offset <= i64::MAX as u64 => offset,
+            _ => {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Invalid cluster group first VNC: {} value out of bounds",
+                    cluster_group.first_vcn
+                )));
+            }
+        };
 
         for data_run in cluster_group.data_runs.iter() {
-            let range_size: u64 = data_run.number_of_blocks * (self.cluster_block_size as u64);
+            let range_size: u64 = match data_run.get_size(self.cluster_block_size) {
+                Ok(range_size) => range_size,
+                Err(mut error) => {
+                    keramics_core::error_trace_add_frame!(
+                        error,
+                        "Unable to determine data run size"
+                    );
+                    return Err(error);
+                }
+            };
 
             if range_size % (self.mft_entry_size as u64) != 0 {
                 return Err(keramics_core::error_trace_new!(format!(
@@ -214,16 +233,18 @@ impl NtfsMasterFileTable {
             )));
         }
         self.block_tree =
-            BlockTree::<NtfsBlockRange>::new(block_tree_size, 0, mft_entry_size as u64);
+            BlockTree::<NtfsBlockRange>::new(block_tree_size, 256, mft_entry_size as u64);
 
         self.cluster_block_size = cluster_block_size;
         self.mft_entry_size = mft_entry_size;
 
-        match self.add_cluster_group(&data_attribute.data_cluster_groups[0]) {
-            Ok(_) => {}
-            Err(mut error) => {
-                keramics_core::error_trace_add_frame!(error, "Unable to add cluster group");
-                return Err(error);
+        for cluster_group in data_attribute.data_cluster_groups.iter() {
+            match self.add_cluster_group(cluster_group) {
+                Ok(_) => {}
+                Err(mut error) => {
+                    keramics_core::error_trace_add_frame!(error, "Unable to add cluster group");
+                    return Err(error);
+                }
             }
         }
         let mft_entries: Vec<u64> = match mft_attributes.attribute_list {
@@ -289,14 +310,16 @@ impl NtfsMasterFileTable {
 
             match mft_attributes.get_attribute(&None, NTFS_ATTRIBUTE_TYPE_DATA) {
                 Some(mft_attribute) => {
-                    match self.add_cluster_group(&mft_attribute.data_cluster_groups[0]) {
-                        Ok(_) => {}
-                        Err(mut error) => {
-                            keramics_core::error_trace_add_frame!(
-                                error,
-                                "Unable to add cluster group"
-                            );
-                            return Err(error);
+                    for cluster_group in mft_attribute.data_cluster_groups.iter() {
+                        match self.add_cluster_group(cluster_group) {
+                            Ok(_) => {}
+                            Err(mut error) => {
+                                keramics_core::error_trace_add_frame!(
+                                    error,
+                                    "Unable to add cluster group"
+                                );
+                                return Err(error);
+                            }
                         }
                     }
                 }
diff --git a/keramics-formats/src/ntfs/mft_attribute.rs b/keramics-formats/src/ntfs/mft_attribute.rs
index f2f2e33..435e71d 100644
--- a/keramics-formats/src/ntfs/mft_attribute.rs
+++ b/keramics-formats/src/ntfs/mft_attribute.rs
@@ -125,12 +125,22 @@ impl NtfsMftAttribute {
                 "Unsupported resident attribute"
             ));
         }
-        if other.data_cluster_groups[0].first_vcn == 0 {
+        if self.is_resident() {
+            return Err(keramics_core::error_trace_new!(
+                "Unsupported non-resident attribute, since existing attribute is resident"
+            ));
+        }
+        if other
+            .data_cluster_groups
+            .iter()
+            .any(|cluster_group| cluster_group.first_vcn == 0)
+        {
             self.allocated_data_size = other.allocated_data_size;
             self.data_size = other.data_size;
             self.valid_data_size = other.valid_data_size;
             self.compression_unit_size = other.compression_unit_size;
             self.compressed_data_size = other.compressed_data_size;
+            self.data_flags = other.data_flags;
         }
         // TODO: check for overlapping clusters
         for cluster_group in other.data_cluster_groups.drain(..) {
@@ -144,8 +154,6 @@ impl NtfsMftAttribute {
 
     /// Reads the MFT attribute from a buffer.
     pub fn read_data(&mut self, data: &[u8]) -> Result<(), ErrorTrace> {
-        let data_size: usize = data.len();
-
         let mut mft_attribute_header: NtfsMftAttributeHeader = NtfsMftAttributeHeader::new();
 
         if self.mediator.debug_output {
@@ -159,6 +167,16 @@ impl NtfsMftAttribute {
                 return Err(error);
             }
         }
+        let data_size: usize = mft_attribute_header.attribute_size as usize;
+
+        if data_size < 16 || data_size > data.len() {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid attribute size: {} value out of bounds",
+                mft_attribute_header.attribute_size
+            )));
+        }
+        let data: &[u8] = &data[..data_size];
+
         self.attribute_type = mft_attribute_header.attribute_type;
         self.attribute_size = mft_attribute_header.attribute_size;
         self.non_resident_flag = mft_attribute_header.non_resident_flag;
diff --git a/keramics-formats/src/ntfs/mft_attributes.rs b/keramics-formats/src/ntfs/mft_attributes.rs
index 4916a96..6a4a4d5 100644
--- a/keramics-formats/src/ntfs/mft_attributes.rs
+++ b/keramics-formats/src/ntfs/mft_attributes.rs
@@ -273,7 +273,7 @@ impl NtfsMftAttributes {
             match wof_compressed_stream.open(
                 data_stream,
                 wof_data_attribute,
-                data_attribute.valid_data_size,
+                data_attribute.data_size,
             ) {
                 Ok(_) => {}
                 Err(mut error) => {
diff --git a/keramics-formats/src/ntfs/mft_entry.rs b/keramics-formats/src/ntfs/mft_entry.rs
index b3e04eb..3d95792 100644
--- a/keramics-formats/src/ntfs/mft_entry.rs
+++ b/keramics-formats/src/ntfs/mft_entry.rs
@@ -75,6 +75,10 @@ impl NtfsMftEntry {
         &self,
         mft_attributes: &mut NtfsMftAttributes,
     ) -> Result<(), ErrorTrace> {
+        // An empty or bad MFT entry has no attributes.
+        if self.is_empty || self.is_bad {
+            return Ok(());
+        }
         let mut data_offset: usize = self.attributes_offset as usize;
         let data_size: usize = self.data.len();
 
@@ -187,7 +191,7 @@ impl NtfsMftEntry {
         self.base_record_file_reference = mft_entry_header.base_record_file_reference;
         self.journal_sequence_number = mft_entry_header.journal_sequence_number;
         self.attributes_offset = mft_entry_header.attributes_offset;
-        self.is_allocated = true;
+        self.is_allocated = mft_entry_header.flags & NTFS_MFT_ENTRY_FLAG_IN_USE != 0;
 
         Ok(())
     }
diff --git a/keramics-formats/src/ntfs/mft_entry_header.rs b/keramics-formats/src/ntfs/mft_entry_header.rs
index cc0de11..3a263aa 100644
--- a/keramics-formats/src/ntfs/mft_entry_header.rs
+++ b/keramics-formats/src/ntfs/mft_entry_header.rs
@@ -55,6 +55,9 @@ pub struct NtfsMftEntryHeader {
     /// Attributes offset.
     pub attributes_offset: u16,
 
+    /// Flags.
+    pub flags: u16,
+
     /// MFT entry size.
     pub mft_entry_size: u32,
 
@@ -71,6 +74,7 @@ impl NtfsMftEntryHeader {
             journal_sequence_number: 0,
             sequence_number: 0,
             attributes_offset: 0,
+            flags: 0,
             mft_entry_size: 0,
             base_record_file_reference: 0,
         }
@@ -93,6 +97,7 @@ impl NtfsMftEntryHeader {
         self.journal_sequence_number = bytes_to_u64_le!(data, 8);
         self.sequence_number = bytes_to_u16_le!(data, 16);
         self.attributes_offset = bytes_to_u16_le!(data, 20);
+        self.flags = bytes_to_u16_le!(data, 22);
         self.mft_entry_size = bytes_to_u32_le!(data, 28);
         self.base_record_file_reference = bytes_to_u64_le!(data, 32);
 
diff --git a/keramics-formats/src/ntfs/reparse_point.rs b/keramics-formats/src/ntfs/reparse_point.rs
index 7e1801e..d1117d6 100644
--- a/keramics-formats/src/ntfs/reparse_point.rs
+++ b/keramics-formats/src/ntfs/reparse_point.rs
@@ -67,6 +67,7 @@ impl NtfsReparsePoint {
     /// Reads the reparse data from a buffer.
     pub fn read_data(&mut self, data: &[u8]) -> Result<(), ErrorTrace> {
         match self {
+            NtfsReparsePoint::Junction { reparse_data } => reparse_data.read_data(data),
             NtfsReparsePoint::SymbolicLink { reparse_data } => reparse_data.read_data(data),
             NtfsReparsePoint::WindowsOverlayFilter { reparse_data } => reparse_data.read_data(data),
             _ => Ok(()),
diff --git a/keramics-formats/src/ntfs/symbolic_link_reparse_data.rs b/keramics-formats/src/ntfs/symbolic_link_reparse_data.rs
index 9a1a90e..3767b35 100644
--- a/keramics-formats/src/ntfs/symbolic_link_reparse_data.rs
+++ b/keramics-formats/src/ntfs/symbolic_link_reparse_data.rs
@@ -59,7 +59,7 @@ impl NtfsSymbolicLinkReparseData {
 
         let data_offset: usize = (substitute_name_offset as usize) + 12;
 
-        if data_offset >= data_size {
+        if data_offset > data_size {
             return Err(keramics_core::error_trace_new!(
                 "Invalid substitute name offset value out of bounds"
             ));
@@ -79,7 +79,7 @@ impl NtfsSymbolicLinkReparseData {
 
         let data_offset: usize = (display_name_offset as usize) + 12;
 
-        if data_offset >= data_size {
+        if data_offset > data_size {
             return Err(keramics_core::error_trace_new!(
                 "Invalid display name offset value out of bounds"
             ));
diff --git a/keramics-formats/src/ntfs/wof_compressed_stream.rs b/keramics-formats/src/ntfs/wof_compressed_stream.rs
index 79ee328..eace60f 100644
--- a/keramics-formats/src/ntfs/wof_compressed_stream.rs
+++ b/keramics-formats/src/ntfs/wof_compressed_stream.rs
@@ -105,7 +105,7 @@ impl NtfsWofCompressedStream {
             }
         }
         self.data_stream = Some(Arc::new(RwLock::new(block_stream)));
-        self.compressed_size = wof_data_attribute.valid_data_size;
+        self.compressed_size = wof_data_attribute.data_size;
         self.compression_unit_size = match self.compression_method {
             0 => 4096,
             1 => 32768,
@@ -154,6 +154,14 @@ impl NtfsWofCompressedStream {
             } else {
                 self.compressed_size
             };
+            if next_block_offset <= block_offset
+                || next_block_offset - block_offset > self.compression_unit_size as u64
+            {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Invalid compressed block offsets: {} - {} value out of bounds",
+                    block_offset, next_block_offset
+                )));
+            }
             let block_size: usize = (next_block_offset - block_offset) as usize;
 
             let range_offset: u64 = block_index * (self.compression_unit_size as u64);
@@ -294,12 +302,17 @@ impl NtfsWofCompressedStream {
         } else {
             4
         };
-        let number_of_block_offsets: usize =
-            self.size.div_ceil(self.compression_unit_size as u64) as usize;
+        let number_of_block_offsets: u64 = self.size.div_ceil(self.compression_unit_size as u64);
 
         // Note that the number of block offsets in the table is total number of blocks - 1.
         // Given that the first block offset is directly after the block offsets table.
-        let data_size: usize = (number_of_block_offsets - 1) * block_offset_data_size;
+        if number_of_block_offsets - 1 > self.compressed_size / (block_offset_data_size as u64) {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid number of compressed blocks: {} value out of bounds",
+                number_of_block_offsets
+            )));
+        }
+        let data_size: usize = ((number_of_block_offsets - 1) as usize) * block_offset_data_size;
 
         let data_stream: &DataStreamReference = match self.data_stream.as_ref() {
             Some(data_stream) => data_stream,
@@ -321,24 +334,24 @@ impl NtfsWofCompressedStream {
             ));
             self.mediator.debug_print_data(&data, true);
         }
-        self.block_offsets.push(data_size as u64);
+        let mut block_offsets: Vec<u64> = vec![data_size as u64];
 
         for data_offset in (0..data_size).step_by(block_offset_data_size) {
-            let mut block_offset: u64 = if block_offset_data_size == 8 {
+            let relative_block_offset: u64 = if block_offset_data_size == 8 {
                 bytes_to_u64_le!(data, data_offset)
             } else {
                 bytes_to_u32_le!(data, data_offset) as u64
             };
-            block_offset += data_size as u64;
-
-            if block_offset > self.compressed_size {
+            if relative_block_offset > self.compressed_size - (data_size as u64) {
                 return Err(keramics_core::error_trace_new!(format!(
                     "Invalid block offset: {} (0x{:08x}) value out of bounds",
-                    block_offset, block_offset
+                    relative_block_offset, relative_block_offset
                 )));
             }
-            self.block_offsets.push(block_offset);
+            block_offsets.push(relative_block_offset + (data_size as u64));
         }
+        self.block_offsets = block_offsets;
+
         if self.mediator.debug_output {
             self.mediator
                 .debug_print(format!("NtfsWofCompressedBlockOffsets {{\n",));
-- 
2.43.0


From adf919886edef84cccd37300c3df1159654c1936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:28 +0000
Subject: [PATCH 31/48] fix: vfs: keep file systems of different types on one
 location apart

---
 keramics-vfs/src/context.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/keramics-vfs/src/context.rs b/keramics-vfs/src/context.rs
index dc5a0e7..67c448f 100644
--- a/keramics-vfs/src/context.rs
+++ b/keramics-vfs/src/context.rs
@@ -26,7 +26,7 @@ use super::types::VfsFileSystemReference;
 /// Virtual File System (VFS) context.
 pub struct VfsContext {
     /// File systems.
-    file_systems: HashMap<VfsLocation, Weak<VfsFileSystem>>,
+    file_systems: HashMap<(VfsType, VfsLocation), Weak<VfsFileSystem>>,
 
     /// Operating system (OS) file system path.
     os_vfs_location: VfsLocation,
@@ -90,12 +90,15 @@ impl VfsContext {
         };
         let parent_vfs_location: Option<&VfsLocation> = vfs_location.get_parent();
 
-        let lookup_key: &VfsLocation = match parent_vfs_location {
-            Some(parent_vfs_location) => parent_vfs_location,
-            None => &self.os_vfs_location,
+        let file_system_path: VfsLocation = match parent_vfs_location {
+            Some(parent_vfs_location) => parent_vfs_location.clone(),
+            None => self.os_vfs_location.clone(),
         };
+        // Note that one location can be opened as different types.
+        let lookup_key: (VfsType, VfsLocation) = (vfs_type.clone(), file_system_path.clone());
+
         let cached_file_system: Option<VfsFileSystemReference> =
-            match self.file_systems.get(lookup_key) {
+            match self.file_systems.get(&lookup_key) {
                 Some(file_system) => file_system.upgrade(),
                 None => None,
             };
@@ -115,10 +118,6 @@ impl VfsContext {
                     },
                     None => None,
                 };
-                let file_system_path: VfsLocation = match parent_vfs_location {
-                    Some(parent_vfs_location) => parent_vfs_location.clone(),
-                    None => self.os_vfs_location.clone(),
-                };
                 let mut file_system: VfsFileSystem = VfsFileSystem::new(&vfs_type);
                 match file_system.open(parent_file_system.as_ref(), &file_system_path) {
                     Ok(()) => {}
@@ -131,7 +130,7 @@ impl VfsContext {
                     VfsFileSystemReference::new(file_system);
 
                 self.file_systems.insert(
-                    file_system_path,
+                    lookup_key,
                     VfsFileSystemReference::downgrade(&cached_file_system),
                 );
                 Ok(cached_file_system)
-- 
2.43.0


From dd0160da45d36130189e742af8548781e04b3a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:28 +0000
Subject: [PATCH 32/48] fix: vfs: write the parent of a location before its
 type

---
 keramics-vfs/src/location.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keramics-vfs/src/location.rs b/keramics-vfs/src/location.rs
index db810b0..0e707fc 100644
--- a/keramics-vfs/src/location.rs
+++ b/keramics-vfs/src/location.rs
@@ -102,8 +102,8 @@ impl VfsLocation {
             } => {
                 format!(
                     "{}\ntype: {}: path: {}\n",
-                    vfs_type.as_str(),
                     parent.to_string(),
+                    vfs_type.as_str(),
                     path.to_string()
                 )
             }
-- 
2.43.0


From 930fccdc67bcb80bfd98b08e997cfbd0ce35365c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:28 +0000
Subject: [PATCH 33/48] fix: vfs: scan sparse disk images and UDIF images for
 volume and file systems

---
 keramics-vfs/src/scanner/scanner.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/keramics-vfs/src/scanner/scanner.rs b/keramics-vfs/src/scanner/scanner.rs
index 1fdca15..853c7be 100644
--- a/keramics-vfs/src/scanner/scanner.rs
+++ b/keramics-vfs/src/scanner/scanner.rs
@@ -184,6 +184,8 @@ impl VfsScanner {
             }
             VfsType::Ewf { .. }
             | VfsType::Qcow { .. }
+            | VfsType::SparseImage { .. }
+            | VfsType::Udif { .. }
             | VfsType::Vhd { .. }
             | VfsType::Vhdx { .. } => {
                 let mut result: Option<VfsType> =
-- 
2.43.0


From 94246d3a79dce26987067eda5ccb026217eb4714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:28 +0000
Subject: [PATCH 34/48] fix: vfs: strip only the prefix of an NTFS symbolic
 link target

---
 keramics-vfs/src/file_entry.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/keramics-vfs/src/file_entry.rs b/keramics-vfs/src/file_entry.rs
index 6c099dc..ed5b285 100644
--- a/keramics-vfs/src/file_entry.rs
+++ b/keramics-vfs/src/file_entry.rs
@@ -310,10 +310,14 @@ impl VfsFileEntry {
             {
                 Ok(result) => match result {
                     Some(name) => {
-                        let path_components: Vec<Ucs2String> = name
+                        // Strip leading "\\??\\".
+                        let elements: &[u16] = name
                             .elements
+                            .strip_prefix(&[0x005c, 0x003f, 0x003f, 0x005c])
+                            .unwrap_or(&name.elements);
+
+                        let path_components: Vec<Ucs2String> = elements
                             .split(|value| *value == 0x005c)
-                            .skip(2) // Strip leading "\\??\\".
                             .map(|component| Ucs2String::from(component))
                             .collect::<Vec<Ucs2String>>();
                         Ok(Some(VfsPath::Ntfs(NtfsPath {
-- 
2.43.0


From 6bffb650d3dcba814474192bfd8cdc58bfae52f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:28 +0000
Subject: [PATCH 35/48] fix: vfs: keep POSIX timestamps of 64 bits and support
 sockets

---
 keramics-vfs/src/os/file_entry.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/keramics-vfs/src/os/file_entry.rs b/keramics-vfs/src/os/file_entry.rs
index 013511b..6640bae 100644
--- a/keramics-vfs/src/os/file_entry.rs
+++ b/keramics-vfs/src/os/file_entry.rs
@@ -120,7 +120,10 @@ impl OsFileEntry {
         if fraction != 0 {
             DateTime::PosixTime64Ns(PosixTime64Ns::new(timestamp, fraction as u32))
         } else if timestamp != 0 {
-            DateTime::PosixTime32(PosixTime32::new(timestamp as i32))
+            match i32::try_from(timestamp) {
+                Ok(timestamp_32bit) => DateTime::PosixTime32(PosixTime32::new(timestamp_32bit)),
+                Err(_) => DateTime::PosixTime64Ns(PosixTime64Ns::new(timestamp, 0)),
+            }
         } else {
             DateTime::NotSet
         }
@@ -147,6 +150,7 @@ impl OsFileEntry {
             0x6000 => VfsFileType::BlockDevice,
             0x8000 => VfsFileType::File,
             0xa000 => VfsFileType::SymbolicLink,
+            0xc000 => VfsFileType::Socket,
             _ => {
                 return Err(keramics_core::error_trace_new!("Unsupported file mode"));
             }
-- 
2.43.0


From 5ae085f582ba324424f5693aaa5138fdf1a9926c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:28 +0000
Subject: [PATCH 36/48] fix: vfs: refuse other spellings of layer and partition
 numbers

---
 keramics-vfs/src/apm/file_system.rs  | 4 ++++
 keramics-vfs/src/gpt/file_system.rs  | 4 ++++
 keramics-vfs/src/mbr/file_system.rs  | 4 ++++
 keramics-vfs/src/qcow/file_system.rs | 4 ++++
 keramics-vfs/src/vhd/file_system.rs  | 4 ++++
 keramics-vfs/src/vhdx/file_system.rs | 4 ++++
 6 files changed, 24 insertions(+)

diff --git a/keramics-vfs/src/apm/file_system.rs b/keramics-vfs/src/apm/file_system.rs
index 4f4296b..3f5c284 100644
--- a/keramics-vfs/src/apm/file_system.rs
+++ b/keramics-vfs/src/apm/file_system.rs
@@ -114,6 +114,10 @@ impl ApmFileSystem {
         if !file_name.starts_with("apm") {
             return None;
         }
+        // Note that parse would also accept a sign and leading zeros.
+        if file_name[3..].starts_with(|value| value == '+' || value == '0') {
+            return None;
+        }
         match file_name[3..].parse::<usize>() {
             Ok(partition_index) => {
                 if partition_index > 0 && partition_index <= self.number_of_partitions {
diff --git a/keramics-vfs/src/gpt/file_system.rs b/keramics-vfs/src/gpt/file_system.rs
index 71e23af..2076aee 100644
--- a/keramics-vfs/src/gpt/file_system.rs
+++ b/keramics-vfs/src/gpt/file_system.rs
@@ -114,6 +114,10 @@ impl GptFileSystem {
         if !file_name.starts_with("gpt") {
             return None;
         }
+        // Note that parse would also accept a sign and leading zeros.
+        if file_name[3..].starts_with(|value| value == '+' || value == '0') {
+            return None;
+        }
         match file_name[3..].parse::<usize>() {
             Ok(partition_index) => {
                 if partition_index > 0 && partition_index <= self.number_of_partitions {
diff --git a/keramics-vfs/src/mbr/file_system.rs b/keramics-vfs/src/mbr/file_system.rs
index e7f1c64..0a60fab 100644
--- a/keramics-vfs/src/mbr/file_system.rs
+++ b/keramics-vfs/src/mbr/file_system.rs
@@ -114,6 +114,10 @@ impl MbrFileSystem {
         if !file_name.starts_with("mbr") {
             return None;
         }
+        // Note that parse would also accept a sign and leading zeros.
+        if file_name[3..].starts_with(|value| value == '+' || value == '0') {
+            return None;
+        }
         match file_name[3..].parse::<usize>() {
             Ok(partition_index) => {
                 if partition_index > 0 && partition_index <= self.number_of_partitions {
diff --git a/keramics-vfs/src/qcow/file_system.rs b/keramics-vfs/src/qcow/file_system.rs
index d033df1..4c937f4 100644
--- a/keramics-vfs/src/qcow/file_system.rs
+++ b/keramics-vfs/src/qcow/file_system.rs
@@ -112,6 +112,10 @@ impl QcowFileSystem {
         if !file_name.starts_with("qcow") {
             return None;
         }
+        // Note that parse would also accept a sign and leading zeros.
+        if file_name[4..].starts_with(|value| value == '+' || value == '0') {
+            return None;
+        }
         match file_name[4..].parse::<usize>() {
             Ok(layer_index) => {
                 if layer_index > 0 && layer_index <= self.number_of_layers {
diff --git a/keramics-vfs/src/vhd/file_system.rs b/keramics-vfs/src/vhd/file_system.rs
index 598d2e1..b748710 100644
--- a/keramics-vfs/src/vhd/file_system.rs
+++ b/keramics-vfs/src/vhd/file_system.rs
@@ -115,6 +115,10 @@ impl VhdFileSystem {
         if !file_name.starts_with("vhd") {
             return None;
         }
+        // Note that parse would also accept a sign and leading zeros.
+        if file_name[3..].starts_with(|value| value == '+' || value == '0') {
+            return None;
+        }
         match file_name[3..].parse::<usize>() {
             Ok(layer_index) => {
                 if layer_index > 0 && layer_index <= self.number_of_layers {
diff --git a/keramics-vfs/src/vhdx/file_system.rs b/keramics-vfs/src/vhdx/file_system.rs
index 9dd98a9..b4956e6 100644
--- a/keramics-vfs/src/vhdx/file_system.rs
+++ b/keramics-vfs/src/vhdx/file_system.rs
@@ -115,6 +115,10 @@ impl VhdxFileSystem {
         if !file_name.starts_with("vhdx") {
             return None;
         }
+        // Note that parse would also accept a sign and leading zeros.
+        if file_name[4..].starts_with(|value| value == '+' || value == '0') {
+            return None;
+        }
         match file_name[4..].parse::<usize>() {
             Ok(layer_index) => {
                 if layer_index > 0 && layer_index <= self.number_of_layers {
-- 
2.43.0


From 12f522c2ccfbf57ea2baf66404c66655eb16a0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:29 +0000
Subject: [PATCH 37/48] fix: vfs: do not panic on an OS file name that is not
 UTF-8

---
 keramics-vfs/src/path.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/keramics-vfs/src/path.rs b/keramics-vfs/src/path.rs
index f022b1d..793f7a1 100644
--- a/keramics-vfs/src/path.rs
+++ b/keramics-vfs/src/path.rs
@@ -223,7 +223,10 @@ impl VfsPath {
                 None => None,
             },
             VfsPath::Os(path_buf) => match path_buf.file_name() {
-                Some(os_str) => Some(PathComponent::String(os_str.to_str().unwrap().to_string())),
+                Some(os_str) => match os_str.to_str() {
+                    Some(string) => Some(PathComponent::String(string.to_string())),
+                    None => None,
+                },
                 None => None,
             },
             VfsPath::String(string_path) => match string_path.file_name() {
-- 
2.43.0


From 869c7fbfd506502c1569014ed6b897e2b32c7743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:21 +0000
Subject: [PATCH 38/48] fix: show the zlib header in debug output only after
 its size was checked

---
 keramics-compression/src/zlib.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/keramics-compression/src/zlib.rs b/keramics-compression/src/zlib.rs
index 1b846b2..070b669 100644
--- a/keramics-compression/src/zlib.rs
+++ b/keramics-compression/src/zlib.rs
@@ -139,19 +139,18 @@ impl ZlibContext {
     ) -> Result<(), ErrorTrace> {
         let mut data_header: ZlibDataHeader = ZlibDataHeader::new();
 
-        if self.mediator.debug_output {
-            let header_size: usize = if compressed_data[1] & 0x20 == 0 { 2 } else { 6 };
+        data_header.read_data(compressed_data)?;
 
+        if self.mediator.debug_output {
             self.mediator.debug_print(format!(
                 "ZlibDataHeader data of size: {} at offset: 0 (0x00000000)\n",
-                header_size,
+                data_header.header_size,
             ));
             self.mediator
-                .debug_print_data(&compressed_data[0..header_size], true);
+                .debug_print_data(&compressed_data[0..data_header.header_size], true);
             self.mediator
                 .debug_print(ZlibDataHeader::debug_read_data(compressed_data));
         }
-        data_header.read_data(compressed_data)?;
 
         let mut bitstream: DeflateBitstream =
             DeflateBitstream::new(&compressed_data, data_header.header_size);
-- 
2.43.0


From 4bd946a28020f0a0a85f7bef1cdd084a72babfbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:21 +0000
Subject: [PATCH 39/48] fix: show an empty bzip2 symbol stack in debug output
 without failing

---
 keramics-compression/src/bzip2.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/keramics-compression/src/bzip2.rs b/keramics-compression/src/bzip2.rs
index 25269c1..0428060 100644
--- a/keramics-compression/src/bzip2.rs
+++ b/keramics-compression/src/bzip2.rs
@@ -702,10 +702,12 @@ impl Bzip2Context {
         if self.mediator.debug_output {
             self.mediator.debug_print(format!("],\n",));
             // TODO: move to a debug_format_array like function.
-            self.mediator
-                .debug_print(format!("    symbols: [0x{:02x}", symbol_stack[0]));
-            for symbol in &symbol_stack[1..symbol_index] {
-                self.mediator.debug_print(format!(", 0x{:02x}", symbol));
+            self.mediator.debug_print(format!("    symbols: ["));
+            for (index, symbol) in symbol_stack[0..symbol_index].iter().enumerate() {
+                if index > 0 {
+                    self.mediator.debug_print(format!(", "));
+                }
+                self.mediator.debug_print(format!("0x{:02x}", symbol));
             }
             self.mediator.debug_print(format!("],\n",));
             self.mediator.debug_print(format!("}}\n\n",));
-- 
2.43.0


From 083f802064509b301e4e8bbdd5fa8b0d0a344a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:21 +0000
Subject: [PATCH 40/48] fix: show lznt1 literal data in debug output only after
 its bounds were checked

---
 keramics-compression/src/lznt1.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/keramics-compression/src/lznt1.rs b/keramics-compression/src/lznt1.rs
index 3e60071..48258df 100644
--- a/keramics-compression/src/lznt1.rs
+++ b/keramics-compression/src/lznt1.rs
@@ -143,16 +143,6 @@ impl Lznt1Context {
                 let uncompressed_data_end_offset: usize =
                     uncompressed_data_offset + block_header.block_size as usize;
 
-                if self.mediator.debug_output {
-                    self.mediator
-                        .debug_print(format!("Lznt1Context::decompress {{\n",));
-                    self.mediator.debug_print(format!("    literal data:\n"));
-                    self.mediator.debug_print_data(
-                        &compressed_data[compressed_data_offset..compressed_data_end_offset],
-                        true,
-                    );
-                    self.mediator.debug_print(format!("}}\n\n"));
-                }
                 if compressed_data_end_offset > compressed_data_size {
                     return Err(keramics_core::error_trace_new!(
                         "Invalid compressed data value too small"
@@ -163,6 +153,16 @@ impl Lznt1Context {
                         "Invalid uncompressed data value too small"
                     ));
                 }
+                if self.mediator.debug_output {
+                    self.mediator
+                        .debug_print(format!("Lznt1Context::decompress {{\n",));
+                    self.mediator.debug_print(format!("    literal data:\n"));
+                    self.mediator.debug_print_data(
+                        &compressed_data[compressed_data_offset..compressed_data_end_offset],
+                        true,
+                    );
+                    self.mediator.debug_print(format!("}}\n\n"));
+                }
                 uncompressed_data[uncompressed_data_offset..uncompressed_data_end_offset]
                     .copy_from_slice(
                         &compressed_data[compressed_data_offset..compressed_data_end_offset],
-- 
2.43.0


From 75461f74ab6035fbb271bd83b142f8d25fe2a69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:21 +0000
Subject: [PATCH 41/48] fix: show the EWF error2 header in debug output only
 after its size was checked

---
 keramics-formats/src/ewf/error2.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/keramics-formats/src/ewf/error2.rs b/keramics-formats/src/ewf/error2.rs
index 5a45308..b124e47 100644
--- a/keramics-formats/src/ewf/error2.rs
+++ b/keramics-formats/src/ewf/error2.rs
@@ -43,10 +43,6 @@ impl EwfError2 {
     fn read_data(&mut self, data: &[u8]) -> Result<(), ErrorTrace> {
         let mut error2_header: EwfError2Header = EwfError2Header::new();
 
-        if self.mediator.debug_output {
-            self.mediator
-                .debug_print(EwfError2Header::debug_read_data(data));
-        }
         match error2_header.read_data(data) {
             Ok(_) => {}
             Err(mut error) => {
@@ -54,6 +50,10 @@ impl EwfError2 {
                 return Err(error);
             }
         }
+        if self.mediator.debug_output {
+            self.mediator
+                .debug_print(EwfError2Header::debug_read_data(data));
+        }
         // TODO: check for empty error2
         // TODO: check for number of entries exceeding maximum
 
-- 
2.43.0


From dffb4e8c7fbc4f0bd0e7f7496d8906a008eb6ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:21 +0000
Subject: [PATCH 42/48] fix: show an ext directory entry in debug output only
 after its size was checked

---
 keramics-formats/src/ext/directory_tree.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/keramics-formats/src/ext/directory_tree.rs b/keramics-formats/src/ext/directory_tree.rs
index eb5f837..f0767ec 100644
--- a/keramics-formats/src/ext/directory_tree.rs
+++ b/keramics-formats/src/ext/directory_tree.rs
@@ -133,10 +133,6 @@ impl ExtDirectoryTree {
         while data_offset < data_size {
             let mut entry: ExtDirectoryEntry = ExtDirectoryEntry::new();
 
-            if self.mediator.debug_output {
-                self.mediator
-                    .debug_print(ExtDirectoryEntry::debug_read_data(&data[data_offset..]));
-            }
             match entry.read_data(&data[data_offset..]) {
                 Ok(_) => {}
                 Err(mut error) => {
@@ -144,6 +140,10 @@ impl ExtDirectoryTree {
                     return Err(error);
                 }
             }
+            if self.mediator.debug_output {
+                self.mediator
+                    .debug_print(ExtDirectoryEntry::debug_read_data(&data[data_offset..]));
+            }
             if entry.size == 0 {
                 break;
             }
-- 
2.43.0


From b653a255cc68a28865c66d59cce3ffb3bfe3d468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:21 +0000
Subject: [PATCH 43/48] fix: show NTFS structures in debug output only after
 their sizes were checked

---
 keramics-formats/src/ntfs/attribute_list.rs  | 10 +++---
 keramics-formats/src/ntfs/directory_index.rs | 34 ++++++++++----------
 keramics-formats/src/ntfs/mft_attribute.rs   | 26 +++++++--------
 keramics-formats/src/ntfs/reparse_point.rs   | 24 +++++++-------
 4 files changed, 47 insertions(+), 47 deletions(-)

diff --git a/keramics-formats/src/ntfs/attribute_list.rs b/keramics-formats/src/ntfs/attribute_list.rs
index 1b8c270..c458b84 100644
--- a/keramics-formats/src/ntfs/attribute_list.rs
+++ b/keramics-formats/src/ntfs/attribute_list.rs
@@ -42,11 +42,6 @@ impl NtfsAttributeList {
 
         while data_offset < data_size {
             let mediator = Mediator::current();
-            if mediator.debug_output {
-                mediator.debug_print(NtfsAttributeListEntry::debug_read_data(
-                    &data[data_offset..],
-                ));
-            }
             let mut entry: NtfsAttributeListEntry = NtfsAttributeListEntry::new();
 
             match entry.read_data(&data[data_offset..]) {
@@ -59,6 +54,11 @@ impl NtfsAttributeList {
                     return Err(error);
                 }
             }
+            if mediator.debug_output {
+                mediator.debug_print(NtfsAttributeListEntry::debug_read_data(
+                    &data[data_offset..],
+                ));
+            }
             // TODO: read name.
             // TODO: print remaining data.
 
diff --git a/keramics-formats/src/ntfs/directory_index.rs b/keramics-formats/src/ntfs/directory_index.rs
index 2d2c85e..cac2b5f 100644
--- a/keramics-formats/src/ntfs/directory_index.rs
+++ b/keramics-formats/src/ntfs/directory_index.rs
@@ -97,12 +97,6 @@ impl NtfsDirectoryIndex {
         }
         let mut index_root_header: NtfsIndexRootHeader = NtfsIndexRootHeader::new();
 
-        if self.mediator.debug_output {
-            self.mediator
-                .debug_print(NtfsIndexRootHeader::debug_read_data(
-                    &i30_index_root_attribute.resident_data,
-                ));
-        }
         match index_root_header.read_data(&i30_index_root_attribute.resident_data) {
             Ok(_) => {}
             Err(mut error) => {
@@ -110,6 +104,12 @@ impl NtfsDirectoryIndex {
                 return Err(error);
             }
         }
+        if self.mediator.debug_output {
+            self.mediator
+                .debug_print(NtfsIndexRootHeader::debug_read_data(
+                    &i30_index_root_attribute.resident_data,
+                ));
+        }
         if index_root_header.attribute_type != NTFS_ATTRIBUTE_TYPE_FILE_NAME {
             return Err(keramics_core::error_trace_new!(format!(
                 "Unsupported $I30 $INDEX_ROOT attribute type: 0x{:08x}",
@@ -593,11 +593,6 @@ impl NtfsDirectoryIndex {
             self.mediator
                 .debug_print_data(&data[key_data_offset..key_data_end_offset], true);
         }
-        if self.mediator.debug_output {
-            self.mediator.debug_print(NtfsFileName::debug_read_data(
-                &data[key_data_offset..key_data_end_offset],
-            ));
-        }
         let mut file_name: NtfsFileName = NtfsFileName::new();
 
         match file_name.read_data(&data[key_data_offset..key_data_end_offset]) {
@@ -607,6 +602,11 @@ impl NtfsDirectoryIndex {
                 return Err(error);
             }
         }
+        if self.mediator.debug_output {
+            self.mediator.debug_print(NtfsFileName::debug_read_data(
+                &data[key_data_offset..key_data_end_offset],
+            ));
+        }
         Ok(file_name)
     }
 
@@ -616,12 +616,6 @@ impl NtfsDirectoryIndex {
         data: &[u8],
         index_node_offset: usize,
     ) -> Result<(usize, usize), ErrorTrace> {
-        if self.mediator.debug_output {
-            self.mediator
-                .debug_print(NtfsIndexNodeHeader::debug_read_data(
-                    &data[index_node_offset..],
-                ));
-        }
         let mut index_node_header: NtfsIndexNodeHeader = NtfsIndexNodeHeader::new();
 
         match index_node_header.read_data(&data[index_node_offset..]) {
@@ -631,6 +625,12 @@ impl NtfsDirectoryIndex {
                 return Err(error);
             }
         }
+        if self.mediator.debug_output {
+            self.mediator
+                .debug_print(NtfsIndexNodeHeader::debug_read_data(
+                    &data[index_node_offset..],
+                ));
+        }
         let index_node_size: usize = index_node_header.size as usize;
 
         if index_node_size > data.len() - index_node_offset {
diff --git a/keramics-formats/src/ntfs/mft_attribute.rs b/keramics-formats/src/ntfs/mft_attribute.rs
index 435e71d..5cf5b2b 100644
--- a/keramics-formats/src/ntfs/mft_attribute.rs
+++ b/keramics-formats/src/ntfs/mft_attribute.rs
@@ -156,10 +156,6 @@ impl NtfsMftAttribute {
     pub fn read_data(&mut self, data: &[u8]) -> Result<(), ErrorTrace> {
         let mut mft_attribute_header: NtfsMftAttributeHeader = NtfsMftAttributeHeader::new();
 
-        if self.mediator.debug_output {
-            self.mediator
-                .debug_print(NtfsMftAttributeHeader::debug_read_data(data));
-        }
         match mft_attribute_header.read_data(data) {
             Ok(_) => {}
             Err(mut error) => {
@@ -167,6 +163,10 @@ impl NtfsMftAttribute {
                 return Err(error);
             }
         }
+        if self.mediator.debug_output {
+            self.mediator
+                .debug_print(NtfsMftAttributeHeader::debug_read_data(data));
+        }
         let data_size: usize = mft_attribute_header.attribute_size as usize;
 
         if data_size < 16 || data_size > data.len() {
@@ -196,12 +196,6 @@ impl NtfsMftAttribute {
             NtfsMftAttributeNonResident::new();
 
         if self.is_resident() {
-            if self.mediator.debug_output {
-                self.mediator
-                    .debug_print(NtfsMftAttributeResident::debug_read_data(
-                        &data[data_offset..],
-                    ));
-            }
             match resident_attribute.read_data(&data[data_offset..]) {
                 Ok(_) => {}
                 Err(mut error) => {
@@ -212,14 +206,14 @@ impl NtfsMftAttribute {
                     return Err(error);
                 }
             }
-            data_offset += 8;
-        } else {
             if self.mediator.debug_output {
                 self.mediator
-                    .debug_print(NtfsMftAttributeNonResident::debug_read_data(
+                    .debug_print(NtfsMftAttributeResident::debug_read_data(
                         &data[data_offset..],
                     ));
             }
+            data_offset += 8;
+        } else {
             match non_resident_attribute.read_data(&data[data_offset..]) {
                 Ok(_) => {}
                 Err(mut error) => {
@@ -230,6 +224,12 @@ impl NtfsMftAttribute {
                     return Err(error);
                 }
             }
+            if self.mediator.debug_output {
+                self.mediator
+                    .debug_print(NtfsMftAttributeNonResident::debug_read_data(
+                        &data[data_offset..],
+                    ));
+            }
             if self.mediator.debug_output {
                 if self.is_compressed()
                     && non_resident_attribute.compression_unit_size == 0
diff --git a/keramics-formats/src/ntfs/reparse_point.rs b/keramics-formats/src/ntfs/reparse_point.rs
index d1117d6..b29f4a8 100644
--- a/keramics-formats/src/ntfs/reparse_point.rs
+++ b/keramics-formats/src/ntfs/reparse_point.rs
@@ -88,6 +88,15 @@ impl NtfsReparsePoint {
             ));
         }
         let mediator = Mediator::current();
+        let mut reparse_point_header: NtfsReparsePointHeader = NtfsReparsePointHeader::new();
+
+        match reparse_point_header.read_data(&mft_attribute.resident_data) {
+            Ok(_) => {}
+            Err(mut error) => {
+                keramics_core::error_trace_add_frame!(error, "Unable to read reparse point header");
+                return Err(error);
+            }
+        }
         if mediator.debug_output {
             mediator.debug_print(format!(
                 "NtfsReparsePoint data of size: {} at offset: 0 (0x00000000)\n",
@@ -98,12 +107,12 @@ impl NtfsReparsePoint {
                 &mft_attribute.resident_data[0..8],
             ));
         }
-        let mut reparse_point_header: NtfsReparsePointHeader = NtfsReparsePointHeader::new();
+        let mut reparse_point: NtfsReparsePoint = NtfsReparsePoint::new(reparse_point_header.tag);
 
-        match reparse_point_header.read_data(&mft_attribute.resident_data) {
+        match reparse_point.read_data(&mft_attribute.resident_data[8..]) {
             Ok(_) => {}
             Err(mut error) => {
-                keramics_core::error_trace_add_frame!(error, "Unable to read reparse point header");
+                keramics_core::error_trace_add_frame!(error, "Unable to read reparse point data");
                 return Err(error);
             }
         }
@@ -121,15 +130,6 @@ impl NtfsReparsePoint {
                 _ => {}
             }
         }
-        let mut reparse_point: NtfsReparsePoint = NtfsReparsePoint::new(reparse_point_header.tag);
-
-        match reparse_point.read_data(&mft_attribute.resident_data[8..]) {
-            Ok(_) => {}
-            Err(mut error) => {
-                keramics_core::error_trace_add_frame!(error, "Unable to read reparse point data");
-                return Err(error);
-            }
-        }
         Ok(reparse_point)
     }
 }
-- 
2.43.0


From 042a1d198a749c6335e3f6bf2b6b24413ca6a9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:32 +0000
Subject: [PATCH 44/48] fix: display paths of names that cannot be decoded and
 of operating system names

---
 keramics-tools/src/display_path.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/keramics-tools/src/display_path.rs b/keramics-tools/src/display_path.rs
index f10c700..8a1f6fa 100644
--- a/keramics-tools/src/display_path.rs
+++ b/keramics-tools/src/display_path.rs
@@ -76,13 +76,15 @@ impl DisplayPath {
                             };
                             string_parts.push(string);
                         }
-                        Err(error) => todo!(),
+                        Err(_) => string_parts.push(char::REPLACEMENT_CHARACTER.to_string()),
                     }
                 }
                 string_parts.join("")
             }
             VfsString::Empty => String::new(),
-            VfsString::OsString(_) => todo!(),
+            VfsString::OsString(os_string) => {
+                self.internal_escape_string(&os_string.to_string_lossy())
+            }
             VfsString::String(string) => self.internal_escape_string(string),
             VfsString::Ucs2(ucs2_string) => ucs2_string
                 .elements
-- 
2.43.0


From cb7fdfa844706c6392e824b5d873dd156f53e7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:59 +0000
Subject: [PATCH 45/48] fix: byte sizes of 1024 PiB and larger

---
 keramics-tools/src/formatters.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/keramics-tools/src/formatters.rs b/keramics-tools/src/formatters.rs
index f6d4124..275bb89 100644
--- a/keramics-tools/src/formatters.rs
+++ b/keramics-tools/src/formatters.rs
@@ -16,12 +16,10 @@ const UNITS: [&str; 9] = ["", "K", "M", "G", "T", "P", "E", "Z", "Y"];
 /// Formats an integer as bytes size.
 pub fn format_as_bytesize(value: u64, base: u64) -> String {
     let mut factor: u64 = 1;
-    let mut next_factor: u64 = base;
     let mut units_index: usize = 0;
 
-    while next_factor <= value {
-        factor = next_factor;
-        next_factor *= base;
+    while value / factor >= base {
+        factor *= base;
         units_index += 1;
     }
     if units_index > 0 {
-- 
2.43.0


From 83d36f4e51b3a7253518cb772ee89824606e9bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:59 +0000
Subject: [PATCH 46/48] fix: bodyfile timestamps before the POSIX epoch

---
 keramics-tools/src/bodyfile.rs | 35 ++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/keramics-tools/src/bodyfile.rs b/keramics-tools/src/bodyfile.rs
index c1dfae6..d3fc5ed 100644
--- a/keramics-tools/src/bodyfile.rs
+++ b/keramics-tools/src/bodyfile.rs
@@ -61,23 +61,30 @@ impl Bodyfile {
         let string: String = match date_time {
             Some(date_time) => match date_time {
                 DateTime::Filetime(filetime) => {
-                    let mut number_of_seconds: u64 = filetime.timestamp / 10000000;
-                    let mut fraction: u64 = filetime.timestamp % 10000000;
-
-                    if number_of_seconds < 11644473600 && fraction > 0 {
-                        number_of_seconds += 1;
-                        fraction = 10000000 - fraction;
-                    };
-                    let posix_time: i64 = (number_of_seconds as i64) - 11644473600;
-
-                    format!("{}.{:07}", posix_time, fraction)
+                    let timestamp: i128 = (filetime.timestamp as i128) - 116444736000000000;
+                    let sign: &str = if timestamp < 0 { "-" } else { "" };
+
+                    format!(
+                        "{}{}.{:07}",
+                        sign,
+                        timestamp.abs() / 10000000,
+                        timestamp.abs() % 10000000
+                    )
                 }
                 DateTime::NotSet => String::from(""),
                 DateTime::PosixTime32(posix_time32) => format!("{}", posix_time32.timestamp),
-                DateTime::PosixTime64Ns(posix_time64ns) => format!(
-                    "{}.{:09}",
-                    posix_time64ns.timestamp, posix_time64ns.fraction
-                ),
+                DateTime::PosixTime64Ns(posix_time64ns) => {
+                    let timestamp: i128 = (posix_time64ns.timestamp as i128) * 1000000000
+                        + (posix_time64ns.fraction as i128);
+                    let sign: &str = if timestamp < 0 { "-" } else { "" };
+
+                    format!(
+                        "{}{}.{:09}",
+                        sign,
+                        timestamp.abs() / 1000000000,
+                        timestamp.abs() % 1000000000
+                    )
+                }
                 _ => return Err(keramics_core::error_trace_new!("Unsupported date time")),
             },
             None => String::from(""),
-- 
2.43.0


From eb576f6a39c014f2ac63f275969a7690bd44ec44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:29 +0000
Subject: [PATCH 47/48] fix: bodyfile of FAT file systems

---
 keramics-tools/src/bodyfile.rs | 58 ++++++++++++++++++++++++++++++++++
 1 file changed, 58 insertions(+)

diff --git a/keramics-tools/src/bodyfile.rs b/keramics-tools/src/bodyfile.rs
index d3fc5ed..3aad283 100644
--- a/keramics-tools/src/bodyfile.rs
+++ b/keramics-tools/src/bodyfile.rs
@@ -60,6 +60,28 @@ impl Bodyfile {
 
         let string: String = match date_time {
             Some(date_time) => match date_time {
+                DateTime::FatDate(fat_date) => {
+                    match Self::get_fat_posix_timestamp(fat_date.date, 0) {
+                        Some(timestamp) => format!("{}", timestamp),
+                        None => String::from(""),
+                    }
+                }
+                DateTime::FatTimeDate(fat_time_date) => {
+                    match Self::get_fat_posix_timestamp(fat_time_date.date, fat_time_date.time) {
+                        Some(timestamp) => format!("{}", timestamp),
+                        None => String::from(""),
+                    }
+                }
+                DateTime::FatTimeDate10Ms(fat_time_date) => {
+                    match Self::get_fat_posix_timestamp(fat_time_date.date, fat_time_date.time) {
+                        Some(timestamp) => format!(
+                            "{}.{:02}",
+                            timestamp + ((fat_time_date.fraction / 100) as i64),
+                            fat_time_date.fraction % 100
+                        ),
+                        None => String::from(""),
+                    }
+                }
                 DateTime::Filetime(filetime) => {
                     let timestamp: i128 = (filetime.timestamp as i128) - 116444736000000000;
                     let sign: &str = if timestamp < 0 { "-" } else { "" };
@@ -91,6 +113,42 @@ impl Bodyfile {
         };
         Ok(string)
     }
+
+    /// Retrieves the POSIX timestamp of a FAT date and time, that does not have a time zone and
+    /// is considered to be in UTC, or None if the date or time is invalid.
+    fn get_fat_posix_timestamp(date: u16, time: u16) -> Option<i64> {
+        let year: i64 = 1980 + ((date >> 9) as i64);
+        let month: usize = ((date >> 5) & 0x0f) as usize;
+        let day_of_month: i64 = (date & 0x1f) as i64;
+        let hours: i64 = (time >> 11) as i64;
+        let minutes: i64 = ((time >> 5) & 0x3f) as i64;
+        let seconds: i64 = ((time & 0x1f) as i64) * 2;
+
+        let is_leap_year: bool = (year % 4 == 0 && year % 100 != 0) || year % 400 == 0;
+        let mut days_per_month: [i64; 12] = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
+        if is_leap_year {
+            days_per_month[1] = 29;
+        }
+        if month < 1
+            || month > 12
+            || day_of_month < 1
+            || day_of_month > days_per_month[month - 1]
+            || hours > 23
+            || minutes > 59
+            || seconds > 59
+        {
+            return None;
+        }
+        let previous_year: i64 = year - 1;
+        let number_of_leap_days: i64 =
+            (previous_year / 4) - (previous_year / 100) + (previous_year / 400) - 477;
+        let number_of_days: i64 = ((year - 1970) * 365)
+            + number_of_leap_days
+            + days_per_month[..month - 1].iter().sum::<i64>()
+            + (day_of_month - 1);
+
+        Some((number_of_days * 86400) + (hours * 3600) + (minutes * 60) + seconds)
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 26d1e549709c24b6155076666020c9ff019877ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:28 +0000
Subject: [PATCH 48/48] fix: show file references of attribute list entries and
 base records as number-sequence

---
 keramics-tools/src/info/ntfs.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/keramics-tools/src/info/ntfs.rs b/keramics-tools/src/info/ntfs.rs
index 1f3caa3..823daf9 100644
--- a/keramics-tools/src/info/ntfs.rs
+++ b/keramics-tools/src/info/ntfs.rs
@@ -220,8 +220,8 @@ impl NtfsInfo {
                                 entry_index + 1,
                                 attribute_type_string,
                                 entry.attribute_type,
-                                entry.file_reference >> 48,
                                 entry.file_reference & 0x0000ffffffffffff,
+                                entry.file_reference >> 48,
                             );
                         }
                         None => {
@@ -229,8 +229,8 @@ impl NtfsInfo {
                                 "    Entry: {}\t\t\t\t: 0x{:08x} with file reference: {}-{}",
                                 entry_index + 1,
                                 entry.attribute_type,
-                                entry.file_reference >> 48,
                                 entry.file_reference & 0x0000ffffffffffff,
+                                entry.file_reference >> 48,
                             );
                         }
                     };
@@ -517,8 +517,8 @@ impl NtfsInfo {
             } else {
                 println!(
                     "    Base record file reference\t\t: {}-{}",
-                    base_record_file_reference >> 48,
                     base_record_file_reference & 0x0000ffffffffffff,
+                    base_record_file_reference >> 48,
                 );
             }
             println!(
-- 
2.43.0

