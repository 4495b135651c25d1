From 0dae292af9502426a3ba01feead65c92de7d6151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:20 +0000
Subject: [PATCH 01/51] fix: take_while* return one contiguous run and consume
 through its end

The matched slice was input[start..start+matches] counting matches scattered over
the whole input, and the consumed length ignored the skipped prefix, so the parser
resumed in the middle of what it had already returned.
---
 .../src/internal/parsers_impl/taken_parsers_impl.rs  | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/parser/src/internal/parsers_impl/taken_parsers_impl.rs b/parser/src/internal/parsers_impl/taken_parsers_impl.rs
index 2dcd97c..4dbd134 100644
--- a/parser/src/internal/parsers_impl/taken_parsers_impl.rs
+++ b/parser/src/internal/parsers_impl/taken_parsers_impl.rs
@@ -33,11 +33,13 @@ impl TakenParsers for ParsersImpl {
             start = Some(index);
           }
           len += 1;
+        } else if start.is_some() {
+          break;
         }
         index += 1;
       }
       match start {
-        Some(s) => ParseResult::successful(&input[s..s + len], len),
+        Some(s) => ParseResult::successful(&input[s..s + len], s + len),
         None => ParseResult::successful(parse_state.slice_with_len(0), 0),
       }
     })
@@ -59,11 +61,13 @@ impl TakenParsers for ParsersImpl {
             start = Some(index);
           }
           len += 1;
+        } else if start.is_some() {
+          break;
         }
         index += 1;
       }
       match start {
-        Some(s) => ParseResult::successful(&input[s..s + len], len),
+        Some(s) => ParseResult::successful(&input[s..s + len], s + len),
         None => ParseResult::failed_with_uncommitted(ParseError::of_in_complete()),
       }
     })
@@ -85,6 +89,8 @@ impl TakenParsers for ParsersImpl {
             start = Some(index);
           }
           len += 1;
+        } else if start.is_some() {
+          break;
         }
         index += 1;
       }
@@ -92,7 +98,7 @@ impl TakenParsers for ParsersImpl {
         Some(s) => {
           let str = &input[s..s + len];
           if n <= str.len() && str.len() <= m {
-            ParseResult::successful(str, len)
+            ParseResult::successful(str, s + len)
           } else {
             ParseResult::failed_with_uncommitted(ParseError::of_in_complete())
           }
-- 
2.43.0


From 0397eb6e4876b6c482b300b08811cec408257d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:46 +0000
Subject: [PATCH 02/51] fix: chain_right1 combines operands to the right

chain_right1 delegated to rest_left1, so it was identical to chain_left1; and
rest_right1 accepted a single operator only.
---
 parser/src/internal/parsers_impl/operator_parsers_impl.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser/src/internal/parsers_impl/operator_parsers_impl.rs b/parser/src/internal/parsers_impl/operator_parsers_impl.rs
index efa7b35..dd199ce 100644
--- a/parser/src/internal/parsers_impl/operator_parsers_impl.rs
+++ b/parser/src/internal/parsers_impl/operator_parsers_impl.rs
@@ -87,7 +87,7 @@ impl OperatorParsers for ParsersImpl {
   where
     BOP: Fn(A, A) -> A + 'a,
     A: Clone + Debug + 'a, {
-    Self::flat_map(p.clone(), move |x| Self::rest_left1(p.clone(), op.clone(), x.clone()))
+    Self::flat_map(p.clone(), move |x| Self::rest_right1(p.clone(), op.clone(), x.clone()))
   }
 
   #[inline]
@@ -107,7 +107,9 @@ impl OperatorParsers for ParsersImpl {
     Self::or(
       Self::flat_map(op.clone(), move |f| {
         let default_value = x.clone();
-        Self::map(p.clone(), move |y| f(default_value.clone(), y.clone()))
+        Self::map(Self::chain_right1(p.clone(), op.clone()), move |y| {
+          f(default_value.clone(), y.clone())
+        })
       }),
       Self::successful(default_value.clone()),
     )
-- 
2.43.0


From de5b8123a733d9e94c314fae9cf699db2ee621f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:18 +0000
Subject: [PATCH 03/51] fix: ParseError::input never indexes past the recorded
 input

---
 parser/src/core/parse_error.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/parser/src/core/parse_error.rs b/parser/src/core/parse_error.rs
index 9db82af..907f2e5 100644
--- a/parser/src/core/parse_error.rs
+++ b/parser/src/core/parse_error.rs
@@ -91,10 +91,10 @@ impl<'a, I> ParseError<'a, I> {
       ParseError::Incomplete => None,
       ParseError::Mismatch {
         input, offset, length, ..
-      } => Some(&input[*offset..(*offset + length)]),
+      } => Some(Self::excerpt(input, *offset, *length)),
       ParseError::Conversion {
         input, offset, length, ..
-      } => Some(&input[*offset..(*offset + length)]),
+      } => Some(Self::excerpt(input, *offset, *length)),
       ParseError::Expect { ref inner, .. } => inner.input(),
       ParseError::Custom {
         inner: Some(ref inner), ..
@@ -103,6 +103,13 @@ impl<'a, I> ParseError<'a, I> {
     }
   }
 
+  fn excerpt(input: &'a [I], offset: usize, length: usize) -> &'a [I] {
+    // `offset` counts from the start of the whole input, `input` may be only the rest of it.
+    let start = offset.min(input.len());
+    let end = offset.saturating_add(length).min(input.len());
+    &input[start..end]
+  }
+
   pub fn is_expect(&self) -> bool {
     match self {
       ParseError::Expect { .. } => true,
-- 
2.43.0


From c3742d3df9fea01ff8daf99edbdf0ee4c6f2a5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:23 +0000
Subject: [PATCH 04/51] fix: regex counts consumed characters and anchors every
 alternative

The length was the match's UTF-8 byte length although the input is a slice of chars,
and '^' was prepended to the first alternative only.
---
 .../src/internal/parsers_impl/elements_parsers_impl.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/parser/src/internal/parsers_impl/elements_parsers_impl.rs b/parser/src/internal/parsers_impl/elements_parsers_impl.rs
index a733b84..03e340a 100644
--- a/parser/src/internal/parsers_impl/elements_parsers_impl.rs
+++ b/parser/src/internal/parsers_impl/elements_parsers_impl.rs
@@ -81,12 +81,8 @@ impl ElementsParsers for ParsersImpl {
   }
 
   fn regex<'a>(pattern: &str) -> Self::P<'a, char, String> {
-    let pattern = if !pattern.starts_with("^") {
-      format!("^{}", pattern)
-    } else {
-      pattern.to_string()
-    };
-    let regex = Regex::new(&pattern).unwrap();
+    // Anchor the whole pattern, not only its first alternative.
+    let regex = Regex::new(&format!("^(?:{})", pattern)).unwrap();
     Parser::new(move |parse_state| {
       let input: &[char] = parse_state.input();
       log::debug!("regex: input = {:?}", input);
@@ -94,7 +90,7 @@ impl ElementsParsers for ParsersImpl {
       if let Some(captures) = regex.captures(&str).as_ref() {
         if let Some(m) = captures.get(0) {
           let str = m.as_str();
-          ParseResult::successful(str.to_string(), str.len())
+          ParseResult::successful(str.to_string(), str.chars().count())
         } else {
           let msg = format!("regex {:?} found: {:?}", regex, str);
           let pe = ParseError::of_mismatch(input, parse_state.current_offset(), str.len(), msg);
-- 
2.43.0


From c89b81b462208d0ce300e170aa45729d3f3f2205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:28 +0000
Subject: [PATCH 05/51] fix: cache keys results by input and position, not by
 stack address

The key held the address of the caller's ParseState and saturating last_offset, so a
result could be replayed at another position or for another input; a recursive parser
also borrowed the cache twice.
---
 .../parsers_impl/cache_parsers_impl.rs        | 26 +++++++++----------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/parser/src/internal/parsers_impl/cache_parsers_impl.rs b/parser/src/internal/parsers_impl/cache_parsers_impl.rs
index 57a64ee..e6f3463 100644
--- a/parser/src/internal/parsers_impl/cache_parsers_impl.rs
+++ b/parser/src/internal/parsers_impl/cache_parsers_impl.rs
@@ -6,7 +6,6 @@ use std::cell::RefCell;
 use crate::core::ParseResult;
 use fnv::FnvHashMap;
 use std::fmt::Debug;
-use std::ptr;
 
 impl CacheParsers for ParsersImpl {
   #[inline]
@@ -18,21 +17,20 @@ impl CacheParsers for ParsersImpl {
     let caches = RefCell::new(FnvHashMap::<(usize, usize, usize), ParseResult<'a, I, A>>::default());
     let method = parser.method.clone();
     Parser::new(move |parser_state| {
-      // キーをタプルとして生成（文字列変換なし）
-      let key = (
-        parser_state as *const _ as usize,
-        parser_state.last_offset().unwrap_or(0),
-        ptr::addr_of!(method) as usize,
-      );
+      // 残りの入力と位置をキーにする。'aの間入力は生存するので、アドレスが再利用されることはない
+      let input = parser_state.input();
+      let key = (input.as_ptr() as usize, input.len(), parser_state.current_offset());
 
       // キャッシュから結果を取得または計算
-      let parse_result = caches
-        .borrow_mut()
-        .entry(key)
-        .or_insert_with(|| method(parser_state))
-        .clone();
-
-      parse_result
+      let cached = caches.borrow().get(&key).cloned();
+      match cached {
+        Some(parse_result) => parse_result,
+        None => {
+          let parse_result = method(parser_state);
+          caches.borrow_mut().insert(key, parse_result.clone());
+          parse_result
+        }
+      }
     })
   }
 }
-- 
2.43.0


From 78189ffb929ad2717895fb5f7636dd79198f1da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:54 +0000
Subject: [PATCH 06/51] fix: is_ascii_digit_non_zero accepts digits only

---
 parser/src/core/element.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/src/core/element.rs b/parser/src/core/element.rs
index dfe138d..fdc547f 100644
--- a/parser/src/core/element.rs
+++ b/parser/src/core/element.rs
@@ -85,7 +85,7 @@ impl Element for u8 {
   }
 
   fn is_ascii_digit_non_zero(&self) -> bool {
-    !self.is_ascii_digit_zero()
+    self.is_ascii_digit() && !self.is_ascii_digit_zero()
   }
 
   fn is_ascii_alpha_digit(&self) -> bool {
@@ -155,7 +155,7 @@ impl Element for char {
   }
 
   fn is_ascii_digit_non_zero(&self) -> bool {
-    !self.is_ascii_digit_zero()
+    self.is_ascii_digit() && !self.is_ascii_digit_zero()
   }
 
   fn is_ascii_alpha_digit(&self) -> bool {
-- 
2.43.0


From 2b98179a500e407203024aac47a0520b9319d3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:48 +0000
Subject: [PATCH 07/51] fix: repeat honours an upper bound that leaves no room
 for an element

The bound was only looked at after the first element had been taken, so of_count(0),
..=0, 0..0 and 0..1 consumed one element.
---
 parser/src/internal/parsers_impl/repeat_parsers_impl.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/parser/src/internal/parsers_impl/repeat_parsers_impl.rs b/parser/src/internal/parsers_impl/repeat_parsers_impl.rs
index ca1b723..ef9a022 100644
--- a/parser/src/internal/parsers_impl/repeat_parsers_impl.rs
+++ b/parser/src/internal/parsers_impl/repeat_parsers_impl.rs
@@ -74,7 +74,13 @@ impl RepeatParsers for ParsersImpl {
       let mut all_length = 0;
       let mut items = vec![];
 
-      if let ParseResult::Success { value, length } = (method)(parse_state) {
+      let no_room = match range.end() {
+        Bound::Included(&max_count) => max_count == 0,
+        Bound::Excluded(&max_count) => max_count <= 1,
+        _ => false,
+      };
+      let first = if no_room { None } else { Some((method)(parse_state)) };
+      if let Some(ParseResult::Success { value, length }) = first {
         let mut current_parse_state = parse_state.advance_by(length);
         items.push(value);
         all_length += length;
-- 
2.43.0


From ed6c687ebc38406f2800498bf617d90139be4c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:20 +0000
Subject: [PATCH 08/51] fix: a separator that no element follows is not
 consumed by repeat_sep

many*_sep swallowed a trailing separator, so '1, * * * *' was a cron expression and
'a.' a path. HOCON's optional trailing comma is now spelled out in its grammar.
---
 hocon/src/parsers.rs                                |  9 +++++++--
 .../internal/parsers_impl/repeat_parsers_impl.rs    | 13 ++++++++-----
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/hocon/src/parsers.rs b/hocon/src/parsers.rs
index df148e5..7c7247e 100644
--- a/hocon/src/parsers.rs
+++ b/hocon/src/parsers.rs
@@ -176,7 +176,9 @@ fn array_right_bracket<'a>() -> Parser<'a, u8, &'a u8> {
 }
 
 fn array<'a>() -> Parser<'a, u8, Vec<ConfigValue>> {
-  let elems = lazy(config_value).of_many0_sep(comma());
+  let elems = (lazy(config_value).of_many1_sep(comma()) - comma().opt())
+    .opt()
+    .map(Option::unwrap_or_default);
   elems.surround(array_left_bracket(), array_right_bracket())
 }
 
@@ -209,7 +211,10 @@ fn comma<'a>() -> Parser<'a, u8, &'a u8> {
 }
 
 fn object<'a>() -> Parser<'a, u8, HashMap<String, ConfigValue>> {
-  let properties: Parser<'a, u8, Vec<(String, ConfigValue)>> = lazy(property).of_many0_sep(comma().opt());
+  let properties: Parser<'a, u8, Vec<(String, ConfigValue)>> =
+    (lazy(property).of_many1_sep(comma().opt()) - comma().opt())
+      .opt()
+      .map(Option::unwrap_or_default);
   let obj: Parser<'a, u8, Vec<(String, ConfigValue)>> =
     properties.surround(object_left_bracket(), object_right_bracket());
   obj.map(|properties| {
diff --git a/parser/src/internal/parsers_impl/repeat_parsers_impl.rs b/parser/src/internal/parsers_impl/repeat_parsers_impl.rs
index ef9a022..45d002a 100644
--- a/parser/src/internal/parsers_impl/repeat_parsers_impl.rs
+++ b/parser/src/internal/parsers_impl/repeat_parsers_impl.rs
@@ -99,18 +99,21 @@ impl RepeatParsers for ParsersImpl {
             _ => (),
           }
 
+          // A separator only counts once an element has followed it.
+          let mut next_parse_state = current_parse_state.clone();
+          let mut next_length = 0;
           if let Some(sep) = &separator_clone {
             if let ParseResult::Success { length, .. } = (sep.method)(&current_parse_state) {
-              current_parse_state = current_parse_state.advance_by(length);
-              all_length += length;
+              next_parse_state = current_parse_state.advance_by(length);
+              next_length = length;
             } else {
               break;
             }
           }
-          if let ParseResult::Success { value, length } = (method)(&current_parse_state) {
-            current_parse_state = current_parse_state.advance_by(length);
+          if let ParseResult::Success { value, length } = (method)(&next_parse_state) {
+            current_parse_state = next_parse_state.advance_by(length);
             items.push(value);
-            all_length += length;
+            all_length += next_length + length;
           } else {
             break;
           }
-- 
2.43.0


From c63b0f7a43cb8e9fd2a41528fe250b96396400f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:26 +0000
Subject: [PATCH 09/51] fix: day of week is matched against the weekday (1 =
 Sunday)

The field was compared with the minute of the instant.
---
 crond/src/cron_evaluator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crond/src/cron_evaluator.rs b/crond/src/cron_evaluator.rs
index 1262254..3a1f708 100644
--- a/crond/src/cron_evaluator.rs
+++ b/crond/src/cron_evaluator.rs
@@ -30,7 +30,7 @@ impl<'a, Tz: TimeZone> CronEvaluator<'a, Tz> {
         );
         let fmonths = self.visit(&CronEnvironment::new(self.instant.date().month() as u8, 12), months);
         let fday_of_weeks = self.visit(
-          &CronEnvironment::new(self.instant.time().minute() as u8, 7),
+          &CronEnvironment::new(self.instant.date().weekday().num_days_from_sunday() as u8 + 1, 7),
           day_of_weeks,
         );
         fmins && fhours && fdays && fmonths && fday_of_weeks
-- 
2.43.0


From 1d4a52ef67a50ff96d1095f1aacc5437f1a4fc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:26 +0000
Subject: [PATCH 10/51] fix: a step of zero matches nothing instead of
 panicking

The parser accepts */0 and a-b/0; step_by(0) panicked when such a schedule
was evaluated.
---
 crond/src/cron_evaluator.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crond/src/cron_evaluator.rs b/crond/src/cron_evaluator.rs
index 3a1f708..6df9004 100644
--- a/crond/src/cron_evaluator.rs
+++ b/crond/src/cron_evaluator.rs
@@ -51,7 +51,7 @@ impl<'a, Tz: TimeZone> CronEvaluator<'a, Tz> {
         per_option,
       } => match per_option {
         box CronExpr::NoOp if *start <= env.now && env.now <= *end => true,
-        box CronExpr::ValueExpr(per) => (*start as usize..=*end as usize)
+        box CronExpr::ValueExpr(per) if *per > 0 => (*start as usize..=*end as usize)
           .step_by(*per as usize)
           .into_iter()
           .any(|e| e == env.now as usize),
@@ -60,7 +60,7 @@ impl<'a, Tz: TimeZone> CronEvaluator<'a, Tz> {
       CronExpr::PerExpr {
         digit: box CronExpr::AnyValueExpr,
         option: box CronExpr::ValueExpr(per),
-      } => (0usize..=(env.max as usize))
+      } if *per > 0 => (0usize..=(env.max as usize))
         .step_by(*per as usize)
         .into_iter()
         .any(|e| e == env.now as usize),
-- 
2.43.0


From dacb76078653a160ed5091e7529243172b30760d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:36 +0000
Subject: [PATCH 11/51] fix: iterating a bounded cron interval stops at its end

The search for the next match ignored the end: it could yield an instant past
it, and never returned when nothing matched any more.
---
 crond/src/cron_interval_iterator.rs | 25 ++++++++-----------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/crond/src/cron_interval_iterator.rs b/crond/src/cron_interval_iterator.rs
index 36fe241..5360b9c 100644
--- a/crond/src/cron_interval_iterator.rs
+++ b/crond/src/cron_interval_iterator.rs
@@ -34,21 +34,11 @@ impl<Tz: TimeZone, S: Specification<DateTime<Tz>>> Iterator for CronIntervalIter
   fn next(&mut self) -> Option<Self::Item> {
     self.curr = self.next.clone();
     self.next = self.next.clone() + Duration::minutes(1);
-    match self.end_value() {
-      None => {
-        self.proceed_next();
-        let curr: DateTime<Tz> = self.curr.clone();
-        Some(curr)
-      }
-      Some(end) => {
-        if end >= self.curr {
-          self.proceed_next();
-          let curr: DateTime<Tz> = self.curr.clone();
-          Some(curr)
-        } else {
-          None
-        }
-      }
+    let end = self.end_value();
+    self.proceed_next(end.as_ref());
+    match end {
+      Some(end) if self.curr > end => None,
+      _ => Some(self.curr.clone()),
     }
   }
 }
@@ -76,8 +66,9 @@ impl<Tz: TimeZone, S: Specification<DateTime<Tz>>> CronIntervalIterator<Tz, S> {
     }
   }
 
-  fn proceed_next(&mut self) {
-    while !self.cron_interval.cron_specification.is_satisfied_by(&self.curr) {
+  fn proceed_next(&mut self, end: Option<&DateTime<Tz>>) {
+    while end.map_or(true, |end| self.curr <= *end) && !self.cron_interval.cron_specification.is_satisfied_by(&self.curr)
+    {
       self.curr = self.next.clone();
       self.next = self.next.clone() + Duration::minutes(1);
     }
-- 
2.43.0


From 4d69bd83bf0f3f0840a8a4aaaf698630174a8d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:03 +0000
Subject: [PATCH 12/51] fix: Uri::parse accepts a text only as a whole

---
 uri/src/models/uri.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uri/src/models/uri.rs b/uri/src/models/uri.rs
index 6c82be6..a2ad508 100644
--- a/uri/src/models/uri.rs
+++ b/uri/src/models/uri.rs
@@ -6,7 +6,7 @@ use crate::models::query::Query;
 use crate::models::scheme::Scheme;
 use crate::models::user_info::UserInfo;
 use crate::parsers::uri_parsers;
-use oni_comb_parser_rs::prelude::{ParseError, ParserRunner};
+use oni_comb_parser_rs::prelude::{end, ParseError, ParserRunner};
 use std::fmt::Formatter;
 
 pub type Fragment = String;
@@ -66,7 +66,7 @@ impl std::fmt::Display for Uri {
 
 impl Uri {
   pub fn parse(text: &str) -> Result<Uri, ParseError<u8>> {
-    uri_parsers::uri().parse(text.as_bytes()).to_result()
+    (uri_parsers::uri() - end()).parse(text.as_bytes()).to_result()
   }
 
   pub fn new(
-- 
2.43.0


From f5dd8e3a1ccd41545abcf38c740b5717edd95209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:08 +0000
Subject: [PATCH 13/51] fix: an IPv6 address may have seven groups before ::

---
 uri/src/parsers/ip_v6_address_parsers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uri/src/parsers/ip_v6_address_parsers.rs b/uri/src/parsers/ip_v6_address_parsers.rs
index 3863da6..9249596 100644
--- a/uri/src/parsers/ip_v6_address_parsers.rs
+++ b/uri/src/parsers/ip_v6_address_parsers.rs
@@ -130,7 +130,7 @@ fn ip_v6_address8<'a>() -> Parser<'a, u8, Ipv6Addr> {
 
 //                / [ *6( h16 ":" ) h16 ] "::"
 fn ip_v6_address9<'a>() -> Parser<'a, u8, Ipv6Addr> {
-  (ip_v6_address_p1(5) + seq(b"::"))
+  (ip_v6_address_p1(6) + seq(b"::"))
     .collect()
     .map(|e| e.to_vec())
     .map_res(String::from_utf8)
-- 
2.43.0


From 64b1b2f7cb61facdad561eb08950659a88f453eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:12 +0000
Subject: [PATCH 14/51] fix: a password may be empty or contain colons

---
 uri/src/parsers/user_info_parsers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uri/src/parsers/user_info_parsers.rs b/uri/src/parsers/user_info_parsers.rs
index f28bd89..cd8ac24 100644
--- a/uri/src/parsers/user_info_parsers.rs
+++ b/uri/src/parsers/user_info_parsers.rs
@@ -6,7 +6,7 @@ use oni_comb_parser_rs::prelude::*;
 pub fn user_info<'a>() -> Parser<'a, u8, UserInfo> {
   let p = || (unreserved().attempt() | pct_encoded().attempt() | sub_delims());
   (p().of_many0().collect().map(|e| e.to_vec()).map_res(String::from_utf8)
-    + (elm(b':') * p().of_many1().collect().map(|e| e.to_vec()).map_res(String::from_utf8)).opt())
+    + (elm(b':') * (p() | elm_ref(b':').collect()).of_many0().collect().map(|e| e.to_vec()).map_res(String::from_utf8)).opt())
   .map(|(user_name, password)| UserInfo::new(user_name, password))
   .name("user_info")
 }
-- 
2.43.0


From 3567ad6564d9520086667f0019ab185a9cc1ea47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:18 +0000
Subject: [PATCH 15/51] fix: a port may be empty

---
 uri/src/parsers/authority_parsers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uri/src/parsers/authority_parsers.rs b/uri/src/parsers/authority_parsers.rs
index cd635fd..0b8aa24 100644
--- a/uri/src/parsers/authority_parsers.rs
+++ b/uri/src/parsers/authority_parsers.rs
@@ -7,8 +7,8 @@ use crate::parsers::user_info_parsers::user_info;
 use oni_comb_parser_rs::prelude::*;
 
 pub fn authority<'a>() -> Parser<'a, u8, Authority> {
-  ((user_info() - elm_ref(b'@')).opt() + host() + (elm_ref(b':') * port()).opt())
-    .map(|((user_info, host_name), port)| Authority::new(host_name, port, user_info))
+  ((user_info() - elm_ref(b'@')).opt() + host() + (elm_ref(b':') * port().opt()).opt())
+    .map(|((user_info, host_name), port)| Authority::new(host_name, port.flatten(), user_info))
 }
 
 #[cfg(test)]
-- 
2.43.0


From 0f5e852a3b55dc6b7eca645cb7ba6c5778c85cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:24 +0000
Subject: [PATCH 16/51] fix: a query value may contain =

---
 uri/src/parsers/query_parsers.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/uri/src/parsers/query_parsers.rs b/uri/src/parsers/query_parsers.rs
index 0dc80fd..6a93a56 100644
--- a/uri/src/parsers/query_parsers.rs
+++ b/uri/src/parsers/query_parsers.rs
@@ -11,7 +11,14 @@ pub fn query<'a>() -> Parser<'a, u8, Query> {
       .map(|e| e.to_vec())
       .map_res(String::from_utf8)
   };
-  let key_values = || (code_point() + (elm(b'=') * code_point()).opt());
+  let value = || {
+    (pchar_without_eq_amp() | elm_of(b"/?=").collect())
+      .of_many0()
+      .collect()
+      .map(|e| e.to_vec())
+      .map_res(String::from_utf8)
+  };
+  let key_values = || (code_point() + (elm(b'=') * value()).opt());
   (key_values() + (elm(b'&') * key_values()).of_many0()).map(|(a, b)| {
     let mut m = vec![a];
     m.extend(b);
-- 
2.43.0


From a7569d2bb21931f7b135ac8d3d61791a16cf774b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:29 +0000
Subject: [PATCH 17/51] fix: a host may be empty

---
 uri/src/parsers/host_parsers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uri/src/parsers/host_parsers.rs b/uri/src/parsers/host_parsers.rs
index f54984f..e33ca7e 100644
--- a/uri/src/parsers/host_parsers.rs
+++ b/uri/src/parsers/host_parsers.rs
@@ -33,7 +33,7 @@ pub fn ip_v_future<'a>() -> Parser<'a, u8, String> {
 //  reg-name      = *( unreserved / pct-encoded / sub-delims )
 pub fn reg_name<'a>() -> Parser<'a, u8, HostName> {
   (unreserved().attempt() | pct_encoded().attempt() | sub_delims())
-    .of_many1()
+    .of_many0()
     .collect()
     .map(|e| e.to_vec())
     .map_res(String::from_utf8)
-- 
2.43.0


From 94d48fc4da271397d9b3a3e9dfce802acb17ade2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:34 +0000
Subject: [PATCH 18/51] fix: a reg-name may begin with an IPv4 address

---
 uri/src/parsers/host_parsers.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/uri/src/parsers/host_parsers.rs b/uri/src/parsers/host_parsers.rs
index e33ca7e..4d32ff9 100644
--- a/uri/src/parsers/host_parsers.rs
+++ b/uri/src/parsers/host_parsers.rs
@@ -7,7 +7,8 @@ use crate::parsers::ip_v6_address_parsers::ip_v6_address;
 
 // host          = IP-literal / IPv4address / reg-name
 pub fn host<'a>() -> Parser<'a, u8, HostName> {
-  (ip_literal().map(HostName::IpLiteral).attempt() | ip_v4_address().map(HostName::Ipv4Address).attempt() | reg_name())
+  let ip_v4 = || ip_v4_address() - (unreserved().attempt() | pct_encoded().attempt() | sub_delims()).not();
+  (ip_literal().map(HostName::IpLiteral).attempt() | ip_v4().map(HostName::Ipv4Address).attempt() | reg_name())
     .name("host")
 }
 
-- 
2.43.0


From 588a764a12a2d820d6512409d973853a6e983990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:39 +0000
Subject: [PATCH 19/51] fix: the v of an IPvFuture may be upper case

---
 uri/src/parsers/host_parsers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uri/src/parsers/host_parsers.rs b/uri/src/parsers/host_parsers.rs
index 4d32ff9..d7f8b9b 100644
--- a/uri/src/parsers/host_parsers.rs
+++ b/uri/src/parsers/host_parsers.rs
@@ -21,7 +21,7 @@ pub fn ip_literal<'a>() -> Parser<'a, u8, IpLiteral> {
 
 // "v" 1*HEXDIG "." 1*( unreserved / sub-delims / ":" )
 pub fn ip_v_future<'a>() -> Parser<'a, u8, String> {
-  (elm_ref(b'v')
+  (elm_ref_of(b"vV")
     + elm_hex_digit().of_many1()
     + elm(b'.')
     + (unreserved() | sub_delims() | elm_ref(b':').collect()).of_many1())
-- 
2.43.0


From 5cea28680058ab9d865e0bd3a78969579af26f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:44 +0000
Subject: [PATCH 20/51] fix: a path without authority does not begin with //

---
 uri/src/parsers/hier_part_parsers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uri/src/parsers/hier_part_parsers.rs b/uri/src/parsers/hier_part_parsers.rs
index 95d6854..bb8b69a 100644
--- a/uri/src/parsers/hier_part_parsers.rs
+++ b/uri/src/parsers/hier_part_parsers.rs
@@ -9,7 +9,7 @@ use oni_comb_parser_rs::prelude::*;
 //                / path-empty
 pub fn hier_part<'a>() -> Parser<'a, u8, Option<HierPart>> {
   let p1 = (seq(b"//") * authority() + path_abempty(false)).map(|(a, b)| HierPart::new(Some(a), b));
-  let p2 = (path_abempty(true).attempt() | path_rootless()).map(|e| HierPart::of_path(e));
+  let p2 = ((seq(b"//").not() * path_abempty(true)).attempt() | path_rootless()).map(|e| HierPart::of_path(e));
   (p1.attempt() | p2).opt()
 }
 
-- 
2.43.0


From 0533d819779d6ccc72b647037946f8e1cd82aab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:36 +0000
Subject: [PATCH 21/51] fix: loading a configuration reports a file that cannot
 be read

---
 hocon/src/model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hocon/src/model.rs b/hocon/src/model.rs
index fdb6063..238cf08 100644
--- a/hocon/src/model.rs
+++ b/hocon/src/model.rs
@@ -70,7 +70,7 @@ impl ConfigFactory {
 
   pub fn load_from_file(&mut self, filename: &str) -> Result<Config, ConfigError> {
     let mut text = String::new();
-    let _ = self.file_reader.read_to_string(filename, &mut text);
+    self.file_reader.read_to_string(filename, &mut text)?;
     self.parse_from_string(&text)
   }
 
-- 
2.43.0


From 8eac3837683ae145ddd104f6b71c52b57527db56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:39 +0000
Subject: [PATCH 22/51] fix: an empty document is an empty object

---
 hocon/src/model.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hocon/src/model.rs b/hocon/src/model.rs
index 238cf08..fcac9fe 100644
--- a/hocon/src/model.rs
+++ b/hocon/src/model.rs
@@ -1,3 +1,4 @@
+use std::collections::HashMap;
 use std::fmt::{Display, Formatter};
 use std::fs::File;
 use std::io::Read;
@@ -95,9 +96,12 @@ impl ConfigFactory {
   }
 
   fn resolve_stage0(config_values: &Vec<ConfigValue>) -> ConfigValue {
-    let mut cur = config_values[0].clone();
+    let mut cur = match config_values.first() {
+      Some(cv) => cv.clone(),
+      None => ConfigValue::Object(ConfigObjectValue::new(HashMap::new())),
+    };
     cur.resolve(None);
-    for cv in &config_values[1..] {
+    for cv in config_values.iter().skip(1) {
       let mut t = cv.clone();
       t.resolve(None);
       cur.merge_with(t);
-- 
2.43.0


From aa404b9088ae9bc8f0950fc4a78bd4af4e71a550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:07 +0000
Subject: [PATCH 23/51] fix: numbers keep their sign and exponent, and never
 panic

---
 hocon/src/parsers.rs | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/hocon/src/parsers.rs b/hocon/src/parsers.rs
index 7c7247e..c12fa45 100644
--- a/hocon/src/parsers.rs
+++ b/hocon/src/parsers.rs
@@ -3,6 +3,7 @@ use std::char::{decode_utf16, REPLACEMENT_CHARACTER};
 use std::collections::HashMap;
 
 use oni_comb_parser_rs::prelude::*;
+use rust_decimal::Decimal;
 
 fn comment<'a>() -> Parser<'a, u8, &'a [u8]> {
   let head = seq(b"//").collect().attempt() | elm_ref(b'#').collect();
@@ -75,21 +76,14 @@ fn duration_value<'a>() -> Parser<'a, u8, ConfigValue> {
 }
 
 fn number_value<'a>() -> Parser<'a, u8, ConfigNumberValue> {
-  number().map(|(s, i, f, e)| match (s, i, f, e) {
-    (None, i, None, None) => ConfigNumberValue::from(i),
-    (Some(_), i, None, None) => ConfigNumberValue::from(i),
-    (_, i, Some(f), None) => {
-      let mut s = i;
-      s.push_str(&f);
-      ConfigNumberValue::from(s)
+  number().map_res(|(s, i, f, e)| {
+    let sign = s.map_or("", |_| "-");
+    let mantissa = format!("{}{}{}", sign, i, f.unwrap_or_default());
+    match e {
+      None => Decimal::from_str_radix(&mantissa, 10),
+      Some(e) => Decimal::from_scientific(&format!("{}{}", mantissa, e)),
     }
-    (_, i, Some(f), Some(e)) => {
-      let mut s = i;
-      s.push_str(&f);
-      s.push_str(&e);
-      ConfigNumberValue::from(s)
-    }
-    _ => panic!("no match !!!"),
+    .map(ConfigNumberValue::new)
   })
 }
 
-- 
2.43.0


From 8e6ecffeadd35544919acf49e9598ee9f21215a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:11 +0000
Subject: [PATCH 24/51] fix: durations accept the long unit names

---
 hocon/src/parsers.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/hocon/src/parsers.rs b/hocon/src/parsers.rs
index c12fa45..5201a3a 100644
--- a/hocon/src/parsers.rs
+++ b/hocon/src/parsers.rs
@@ -45,28 +45,28 @@ fn number<'a>() -> Parser<'a, u8, (Option<&'a u8>, String, Option<String>, Optio
 }
 
 fn duration<'a>() -> Parser<'a, u8, (ConfigNumberValue, TimeUnit)> {
-  let ns = (seq(b"ns").attempt()
-    | seq(b"nano").attempt()
-    | seq(b"nanos").attempt()
+  let ns = (seq(b"nanoseconds").attempt()
     | seq(b"nanosecond").attempt()
-    | seq(b"nanoseconds"))
+    | seq(b"nanos").attempt()
+    | seq(b"nano").attempt()
+    | seq(b"ns"))
   .map(|_| TimeUnit::Nanoseconds);
-  let us = (seq(b"us").attempt()
-    | seq(b"micro").attempt()
-    | seq(b"micros").attempt()
+  let us = (seq(b"microseconds").attempt()
     | seq(b"microsecond").attempt()
-    | seq(b"microseconds"))
+    | seq(b"micros").attempt()
+    | seq(b"micro").attempt()
+    | seq(b"us"))
   .map(|_| TimeUnit::Microseconds);
-  let ms = (seq(b"ms").attempt()
-    | seq(b"milli").attempt()
-    | seq(b"millis").attempt()
+  let ms = (seq(b"milliseconds").attempt()
     | seq(b"millisecond").attempt()
-    | seq(b"milliseconds"))
+    | seq(b"millis").attempt()
+    | seq(b"milli").attempt()
+    | seq(b"ms"))
   .map(|_| TimeUnit::Milliseconds);
-  let s = (seq(b"s").attempt() | seq(b"second").attempt() | seq(b"seconds")).map(|_| TimeUnit::Seconds);
-  let m = (seq(b"m").attempt() | seq(b"minute").attempt() | seq(b"minutes")).map(|_| TimeUnit::Minutes);
-  let h = (seq(b"h").attempt() | seq(b"hour").attempt() | seq(b"hours")).map(|_| TimeUnit::Hours);
-  let d = (seq(b"d").attempt() | seq(b"day").attempt() | seq(b"days")).map(|_| TimeUnit::Days);
+  let s = (seq(b"seconds").attempt() | seq(b"second").attempt() | seq(b"s")).map(|_| TimeUnit::Seconds);
+  let m = (seq(b"minutes").attempt() | seq(b"minute").attempt() | seq(b"m")).map(|_| TimeUnit::Minutes);
+  let h = (seq(b"hours").attempt() | seq(b"hour").attempt() | seq(b"h")).map(|_| TimeUnit::Hours);
+  let d = (seq(b"days").attempt() | seq(b"day").attempt() | seq(b"d")).map(|_| TimeUnit::Days);
 
   number_value() + (ns.attempt() | us.attempt() | ms.attempt() | s.attempt() | m.attempt() | h.attempt() | d)
 }
-- 
2.43.0


From cec3e3fbff076683a0a51c0747c714931f6e3b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:15 +0000
Subject: [PATCH 25/51] fix: a key on the next line is not taken for a duration
 unit

---
 hocon/src/parsers.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/hocon/src/parsers.rs b/hocon/src/parsers.rs
index 5201a3a..2eea6fc 100644
--- a/hocon/src/parsers.rs
+++ b/hocon/src/parsers.rs
@@ -39,9 +39,7 @@ fn number<'a>() -> Parser<'a, u8, (Option<&'a u8>, String, Option<String>, Optio
     + integer.map_res(std::str::from_utf8).map(String::from)
     + frac.collect().map_res(std::str::from_utf8).map(String::from).opt()
     + exp.collect().map_res(std::str::from_utf8).map(String::from).opt();
-  number
-    .surround(space_or_comment(), space_or_comment())
-    .map(|(((s, i), f), e)| (s, i, f, e))
+  number.map(|(((s, i), f), e)| (s, i, f, e))
 }
 
 fn duration<'a>() -> Parser<'a, u8, (ConfigNumberValue, TimeUnit)> {
@@ -68,7 +66,8 @@ fn duration<'a>() -> Parser<'a, u8, (ConfigNumberValue, TimeUnit)> {
   let h = (seq(b"hours").attempt() | seq(b"hour").attempt() | seq(b"h")).map(|_| TimeUnit::Hours);
   let d = (seq(b"days").attempt() | seq(b"day").attempt() | seq(b"d")).map(|_| TimeUnit::Days);
 
-  number_value() + (ns.attempt() | us.attempt() | ms.attempt() | s.attempt() | m.attempt() | h.attempt() | d)
+  let unit = ns.attempt() | us.attempt() | ms.attempt() | s.attempt() | m.attempt() | h.attempt() | d;
+  (number_value() - elm_ref_of(b" \t").of_many0()) + (unit - path_element().not())
 }
 
 fn duration_value<'a>() -> Parser<'a, u8, ConfigValue> {
-- 
2.43.0


From 1c0ae97761473905c0d027dbc24637f3eed31831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:43 +0000
Subject: [PATCH 26/51] fix: a quoted string is all that is between its quotes

---
 hocon/src/parsers.rs | 63 +++++++++++++-------------------------------
 1 file changed, 18 insertions(+), 45 deletions(-)

diff --git a/hocon/src/parsers.rs b/hocon/src/parsers.rs
index 2eea6fc..64a3120 100644
--- a/hocon/src/parsers.rs
+++ b/hocon/src/parsers.rs
@@ -86,15 +86,7 @@ fn number_value<'a>() -> Parser<'a, u8, ConfigNumberValue> {
   })
 }
 
-fn string_double_quote_bracket<'a>() -> Parser<'a, u8, &'a u8> {
-  elm_ref(b'"').surround(space_or_comment(), space_or_comment())
-}
-
-fn string_single_quote_bracket<'a>() -> Parser<'a, u8, &'a u8> {
-  elm_ref(b'\'').surround(space_or_comment(), space_or_comment())
-}
-
-fn string<'a>() -> Parser<'a, u8, String> {
+fn escape_sequence<'a>() -> Parser<'a, u8, &'a u8> {
   let special_char = elm_ref(b'\\')
     | elm_ref(b'/')
     | elm_ref(b'"')
@@ -103,40 +95,11 @@ fn string<'a>() -> Parser<'a, u8, String> {
     | elm_ref(b'n').map(|_| &b'\n')
     | elm_ref(b'r').map(|_| &b'\r')
     | elm_ref(b't').map(|_| &b'\t');
-  let escape_sequence = elm_ref(b'\\') * special_char;
-  // let char_string = (none_ref_of(b"\r\n\\\"'") | escape_sequence)
-  let char_string = (none_ref_of(b"[]\r\n\\\"'") | escape_sequence)
-    .map(Clone::clone)
-    .of_many1()
-    .map_res(String::from_utf8);
-  let utf16_char = seq(b"\\u")
-    * elm_hex_digit()
-      .of_count(4)
-      .map_res(String::from_utf8)
-      .map_res(|digits| u16::from_str_radix(&digits, 16));
-  let utf16_string = utf16_char.of_many1().map(|chars| {
-    decode_utf16(chars)
-      .map(|r| r.unwrap_or(REPLACEMENT_CHARACTER))
-      .collect::<String>()
-  });
-  let string_surround = || (char_string.clone().attempt() | utf16_string.clone()).of_many1();
-  let string_surround1 = string_surround().surround(string_double_quote_bracket(), string_double_quote_bracket());
-  let string_surround2 = string_surround().surround(string_single_quote_bracket(), string_single_quote_bracket());
-  (string_surround1.attempt() | string_surround2.attempt() | string_surround()).map(|strings| strings.concat())
+  elm_ref(b'\\') * special_char
 }
 
-fn string_zero<'a>() -> Parser<'a, u8, String> {
-  let special_char = elm_ref(b'\\')
-    | elm_ref(b'/')
-    | elm_ref(b'"')
-    | elm_ref(b'b').map(|_| &b'\x08')
-    | elm_ref(b'f').map(|_| &b'\x0C')
-    | elm_ref(b'n').map(|_| &b'\n')
-    | elm_ref(b'r').map(|_| &b'\r')
-    | elm_ref(b't').map(|_| &b'\t');
-  let escape_sequence = elm_ref(b'\\') * special_char;
-  // let char_string = (none_ref_of(b"\r\n\\\"'") | escape_sequence)
-  let char_string = (none_ref_of(b"[]\r\n\\\"'") | escape_sequence)
+fn string_chars<'a>(excluded: &'static [u8]) -> Parser<'a, u8, String> {
+  let char_string = (none_ref_of(excluded) | escape_sequence())
     .map(Clone::clone)
     .of_many1()
     .map_res(String::from_utf8);
@@ -150,10 +113,20 @@ fn string_zero<'a>() -> Parser<'a, u8, String> {
       .map(|r| r.unwrap_or(REPLACEMENT_CHARACTER))
       .collect::<String>()
   });
-  let string_surround = || (char_string.clone().attempt() | utf16_string.clone()).of_many0();
-  let string_surround1 = string_surround().surround(string_double_quote_bracket(), string_double_quote_bracket());
-  let string_surround2 = string_surround().surround(string_single_quote_bracket(), string_single_quote_bracket());
-  (string_surround1.attempt() | string_surround2.attempt() | string_surround()).map(|strings| strings.concat())
+  (char_string.attempt() | utf16_string)
+    .of_many0()
+    .map(|strings| strings.concat())
+}
+
+fn quoted_string<'a>() -> Parser<'a, u8, String> {
+  let double_quoted = string_chars(b"\r\n\\\"").surround(elm_ref(b'"'), elm_ref(b'"'));
+  let single_quoted = string_chars(b"\r\n\\'").surround(elm_ref(b'\''), elm_ref(b'\''));
+  (double_quoted.attempt() | single_quoted).surround(space_or_comment(), space_or_comment())
+}
+
+fn string<'a>() -> Parser<'a, u8, String> {
+  let unquoted = string_chars(b"[]\r\n\\\"'").map_res(|s| if s.is_empty() { Err("empty string") } else { Ok(s) });
+  quoted_string().attempt() | unquoted
 }
 
 fn string_config_value<'a>() -> Parser<'a, u8, ConfigValue> {
-- 
2.43.0


From 35f4c12a0d97767bbe9a678f27977cc13eab885b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:47 +0000
Subject: [PATCH 27/51] fix: an unquoted string ends where the next token
 starts

---
 hocon/src/parsers.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/hocon/src/parsers.rs b/hocon/src/parsers.rs
index 64a3120..e1d984e 100644
--- a/hocon/src/parsers.rs
+++ b/hocon/src/parsers.rs
@@ -124,9 +124,17 @@ fn quoted_string<'a>() -> Parser<'a, u8, String> {
   (double_quoted.attempt() | single_quoted).surround(space_or_comment(), space_or_comment())
 }
 
+fn unquoted_string<'a>(excluded: &'static [u8]) -> Parser<'a, u8, String> {
+  let comment_head = (elm_ref_of(b" \t").of_many1() + seq(b"//")).discard();
+  (comment_head.not() * none_ref_of(excluded) | escape_sequence())
+    .map(Clone::clone)
+    .of_many1()
+    .map_res(String::from_utf8)
+    .map(|s| s.trim_end().to_string())
+}
+
 fn string<'a>() -> Parser<'a, u8, String> {
-  let unquoted = string_chars(b"[]\r\n\\\"'").map_res(|s| if s.is_empty() { Err("empty string") } else { Ok(s) });
-  quoted_string().attempt() | unquoted
+  quoted_string().attempt() | unquoted_string(b"[]{},#\r\n\\\"'")
 }
 
 fn string_config_value<'a>() -> Parser<'a, u8, ConfigValue> {
@@ -153,7 +161,7 @@ fn kv<'a>() -> Parser<'a, u8, ()> {
 }
 
 pub fn key<'a>() -> Parser<'a, u8, String> {
-  (path().attempt() | string()).surround(space_or_comment(), space_or_comment())
+  (path().attempt() | quoted_string().attempt() | unquoted_string(b"[]{},#=:\r\n\\\"'")).surround(space_or_comment(), space_or_comment())
 }
 
 fn property<'a>() -> Parser<'a, u8, (String, ConfigValue)> {
-- 
2.43.0


From 2bb99858ed9a90a281d2bca81a4c82bbe0868219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:50 +0000
Subject: [PATCH 28/51] fix: a word that only begins with null, true or false
 is a string

---
 hocon/src/parsers.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hocon/src/parsers.rs b/hocon/src/parsers.rs
index e1d984e..a09d5bc 100644
--- a/hocon/src/parsers.rs
+++ b/hocon/src/parsers.rs
@@ -261,9 +261,10 @@ fn enumeration_config_value<'a>() -> Parser<'a, u8, ConfigValue> {
 }
 
 fn simple_config_value<'a>() -> Parser<'a, u8, ConfigValue> {
-  (seq(b"null").map(|_| ConfigValue::Null).attempt()
-    | seq(b"true").map(|_| ConfigValue::Bool(true)).attempt()
-    | seq(b"false").map(|_| ConfigValue::Bool(false)).attempt()
+  let word = |text: &'static [u8]| seq(text) - path_element().not();
+  (word(b"null").map(|_| ConfigValue::Null).attempt()
+    | word(b"true").map(|_| ConfigValue::Bool(true)).attempt()
+    | word(b"false").map(|_| ConfigValue::Bool(false)).attempt()
     | duration_value().attempt()
     | number_value().map(ConfigValue::Number).attempt()
     | string_config_value())
-- 
2.43.0


From 49e0597a31759ebcc664f78d49ea7a57d07fdd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:54 +0000
Subject: [PATCH 29/51] fix: commas may separate the properties of a document
 without braces

---
 hocon/src/parsers.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hocon/src/parsers.rs b/hocon/src/parsers.rs
index a09d5bc..f5f496a 100644
--- a/hocon/src/parsers.rs
+++ b/hocon/src/parsers.rs
@@ -281,8 +281,7 @@ fn config_value<'a>() -> Parser<'a, u8, ConfigValue> {
 }
 
 fn config<'a>() -> Parser<'a, u8, Vec<ConfigValue>> {
-  property_config_value()
-    .of_many1()
+  (property_config_value().of_many1_sep(comma().opt()) - comma().opt())
     .map(|values: Vec<(String, ConfigValue)>| {
       let map = values.into_iter().fold(HashMap::new(), |mut key_values, (k, v)| {
         match key_values.get_mut(&k) {
-- 
2.43.0


From 1ff4cd1b338f0caa679d330f52f57dbd6fb9c50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:58 +0000
Subject: [PATCH 30/51] fix: path elements may contain digits

---
 hocon/src/parsers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hocon/src/parsers.rs b/hocon/src/parsers.rs
index f5f496a..61fac43 100644
--- a/hocon/src/parsers.rs
+++ b/hocon/src/parsers.rs
@@ -206,7 +206,7 @@ fn object<'a>() -> Parser<'a, u8, HashMap<String, ConfigValue>> {
 }
 
 fn path_element<'a>() -> Parser<'a, u8, &'a [u8]> {
-  (elm_alpha() | elm_of(b"-_")).of_many1().collect()
+  (elm_alpha() | elm_digit() | elm_of(b"-_")).of_many1().collect()
 }
 
 fn path<'a>() -> Parser<'a, u8, String> {
-- 
2.43.0


From 2d31982909bf2b90a0f108199e211b2b12ab077f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:54 +0000
Subject: [PATCH 31/51] fix: a dotted key keeps its siblings, at every level

---
 hocon/src/model/config_value.rs | 31 -------------------------------
 hocon/src/parsers.rs            | 23 +++++++++++++++++++++--
 2 files changed, 21 insertions(+), 33 deletions(-)

diff --git a/hocon/src/model/config_value.rs b/hocon/src/model/config_value.rs
index 8a49771..a3da72e 100644
--- a/hocon/src/model/config_value.rs
+++ b/hocon/src/model/config_value.rs
@@ -123,37 +123,6 @@ impl ConfigResolver for ConfigValue {
           *cva = ConfigValue::Array(ConfigArrayValue::new(m));
         }
       }
-      (ConfigValue::Object(cov), None) => {
-        let mut new_key_values = HashMap::new();
-        for (key, cv) in &cov.0 {
-          if key.contains(".") {
-            let mut keys = key.split(".").collect::<Vec<_>>();
-            keys.reverse();
-            let mut leaf_map = HashMap::new();
-            let mut mcv = cv.clone();
-            mcv.resolve(None);
-            leaf_map.insert(keys[0].to_string(), mcv);
-            let mut new_object = ConfigValue::Object(ConfigObjectValue::new(leaf_map));
-            for key in &keys[1..(keys.len() - 1)] {
-              let mut node_map = HashMap::new();
-              node_map.insert(key.to_string(), new_object.clone());
-              new_object = ConfigValue::Object(ConfigObjectValue::new(node_map));
-            }
-            let last_key = keys.last().unwrap().to_string();
-            match new_key_values.get_mut(&last_key) {
-              None => {
-                new_key_values.insert(last_key, new_object);
-              }
-              Some(entry) => {
-                entry.merge_with(new_object);
-              }
-            }
-          }
-        }
-        if !new_key_values.is_empty() {
-          *cov = ConfigObjectValue::new(new_key_values);
-        }
-      }
       (cvo @ ConfigValue::Object(..), Some(..)) => {
         let ov = cvo.get_object_value().unwrap();
         let mut key_values = HashMap::new();
diff --git a/hocon/src/parsers.rs b/hocon/src/parsers.rs
index 61fac43..da68692 100644
--- a/hocon/src/parsers.rs
+++ b/hocon/src/parsers.rs
@@ -161,11 +161,30 @@ fn kv<'a>() -> Parser<'a, u8, ()> {
 }
 
 pub fn key<'a>() -> Parser<'a, u8, String> {
-  (path().attempt() | quoted_string().attempt() | unquoted_string(b"[]{},#=:\r\n\\\"'")).surround(space_or_comment(), space_or_comment())
+  (path().attempt() | string_key()).surround(space_or_comment(), space_or_comment())
 }
 
+fn string_key<'a>() -> Parser<'a, u8, String> {
+  quoted_string().attempt() | unquoted_string(b"[]{},#=:\r\n\\\"'")
+}
+
+fn property_key<'a>() -> Parser<'a, u8, Vec<String>> {
+  let elements = path().map(|path| path.split('.').map(String::from).collect::<Vec<_>>());
+  (elements.attempt() | string_key().map(|key| vec![key])).surround(space_or_comment(), space_or_comment())
+}
+
+// A path as the key stands for nested objects.
 fn property<'a>() -> Parser<'a, u8, (String, ConfigValue)> {
-  key() + ((kv() * lazy(config_value)).attempt() | object_config_value().attempt() | array_config_value())
+  (property_key() + ((kv() * lazy(config_value)).attempt() | object_config_value().attempt() | array_config_value())).map(
+    |(mut keys, value)| {
+      let first = keys.remove(0);
+      let value = keys
+        .into_iter()
+        .rev()
+        .fold(value, |value, key| ConfigValue::Object(ConfigObjectValue::from((key, value))));
+      (first, value)
+    },
+  )
 }
 
 fn property_config_value<'a>() -> Parser<'a, u8, (String, ConfigValue)> {
-- 
2.43.0


From cc9d167fbbb88e7b296d06a059dc240bf51807e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:57 +0000
Subject: [PATCH 32/51] fix: a later value for the same key wins, and objects
 merge

---
 hocon/src/model/config_value.rs | 20 +++++++-------------
 hocon/src/parsers.rs            |  2 +-
 2 files changed, 8 insertions(+), 14 deletions(-)

diff --git a/hocon/src/model/config_value.rs b/hocon/src/model/config_value.rs
index a3da72e..1302cac 100644
--- a/hocon/src/model/config_value.rs
+++ b/hocon/src/model/config_value.rs
@@ -75,16 +75,17 @@ impl ConfigMergeable for ConfigValue {
       (ConfigValue::Object(l), ConfigValue::Object(r)) => {
         l.merge_with(r);
       }
-      (ConfigValue::Array(l), ConfigValue::Array(r)) => {
-        l.merge_with(r);
+      (l, r @ ConfigValue::Link(..)) => {
+        for cv in r.to_vec() {
+          l.merge_with(cv);
+        }
       }
-      (ConfigValue::Link(..), ConfigValue::Link(..)) => {}
-      (l @ ConfigValue::Link(..), r) => {
-        let mut cv = l.get_value_link().unwrap().value.clone();
+      (l @ ConfigValue::Link(..), r @ ConfigValue::Object(..)) if l.latest().as_object().is_some() => {
+        let mut cv = l.latest().clone();
         cv.merge_with(r);
         l.push(cv);
       }
-      (..) => {}
+      (l, r) => l.push(r),
     }
   }
 }
@@ -397,13 +398,6 @@ impl ConfigValue {
       _ => None,
     }
   }
-
-  fn get_value_link(&self) -> Option<&ConfigValueLink> {
-    match self {
-      ConfigValue::Link(cvl) => Some(&*cvl),
-      _ => None,
-    }
-  }
 }
 
 #[cfg(test)]
diff --git a/hocon/src/parsers.rs b/hocon/src/parsers.rs
index da68692..5a53405 100644
--- a/hocon/src/parsers.rs
+++ b/hocon/src/parsers.rs
@@ -214,7 +214,7 @@ fn object<'a>() -> Parser<'a, u8, HashMap<String, ConfigValue>> {
     let m: HashMap<String, ConfigValue> = HashMap::new();
     properties.into_iter().fold(m, |mut r, e| {
       match r.get_mut(&e.0) {
-        Some(v) => v.push(e.1),
+        Some(v) => v.merge_with(e.1),
         None => {
           r.insert(e.0, e.1);
         }
-- 
2.43.0


From a128cb6b7472a2140d0c8033ecdaf5c6c0bc6aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:15 +0000
Subject: [PATCH 33/51] fix: references resolve through references, fall back
 to the previous value and end on cycles

---
 hocon/src/model/config_value.rs | 138 +++++++++++++++++---------------
 1 file changed, 75 insertions(+), 63 deletions(-)

diff --git a/hocon/src/model/config_value.rs b/hocon/src/model/config_value.rs
index 1302cac..1f120ff 100644
--- a/hocon/src/model/config_value.rs
+++ b/hocon/src/model/config_value.rs
@@ -92,6 +92,13 @@ impl ConfigMergeable for ConfigValue {
 
 impl ConfigResolver for ConfigValue {
   fn resolve(&mut self, source: Option<&Self>) {
+    self.resolve_with(source, &mut vec![])
+  }
+}
+
+impl ConfigValue {
+  // `pending` holds the paths of the references that are being resolved.
+  fn resolve_with(&mut self, source: Option<&Self>, pending: &mut Vec<String>) {
     match (self, source) {
       (cvi @ ConfigValue::Include(..), ..) => {
         let mut config_factory = ConfigFactory::new();
@@ -102,49 +109,39 @@ impl ConfigResolver for ConfigValue {
       }
       (cvl @ ConfigValue::Link(..), Some(..)) => {
         let cvs = cvl.to_vec();
-        if !cvs.is_empty() {
-          let mut head = cvs[0].clone();
-          head.resolve(source);
-          for e in &cvs[1..] {
-            let mut ee = e.clone();
-            ee.resolve(source);
-            head.push(ee.clone());
+        // Only objects, and references that may stand for objects, build on what is before them.
+        let first = cvs
+          .iter()
+          .rposition(|cv| !matches!(cv, ConfigValue::Object(..) | ConfigValue::Reference { .. }));
+        let mut cvs = cvs.into_iter().skip(first.unwrap_or(0));
+        if let Some(mut head) = cvs.next() {
+          head.resolve_with(source, pending);
+          for mut cv in cvs {
+            cv.resolve_with(source, pending);
+            head.merge_with(cv);
           }
           *cvl = head;
         }
       }
-      (cva @ ConfigValue::Array(..), Some(..)) => {
-        let av = cva.get_array_value().unwrap();
-        let mut m = vec![];
-        for mut cv in av.0.clone().into_iter() {
-          cv.resolve(source);
-          m.push(cv);
-        }
-        if !av.0.is_empty() {
-          *cva = ConfigValue::Array(ConfigArrayValue::new(m));
+      (ConfigValue::Array(cav), Some(..)) => {
+        for cv in &mut cav.0 {
+          cv.resolve_with(source, pending);
         }
+        cav.0.retain(|cv| !cv.is_undefined());
       }
-      (cvo @ ConfigValue::Object(..), Some(..)) => {
-        let ov = cvo.get_object_value().unwrap();
-        let mut key_values = HashMap::new();
-        for (key, mut cv) in ov.0.clone() {
-          cv.resolve(source);
-          key_values.insert(key, cv);
-        }
-        if !key_values.is_empty() {
-          *cvo = ConfigValue::Object(ConfigObjectValue::new(key_values));
+      (ConfigValue::Object(cov), Some(..)) => {
+        for cv in cov.0.values_mut() {
+          cv.resolve_with(source, pending);
         }
+        cov.0.retain(|_, cv| !cv.is_undefined());
       }
       (cvr @ ConfigValue::Enumeration { .. }, Some(_)) => match cvr {
         ConfigValue::Enumeration { prev, values, .. } => {
           let mut result = String::new();
           for cv in &mut values.0 {
-            println!("cv = {:?}", cv);
-            cv.resolve(source);
-            println!("cv = {:?}", cv);
+            cv.resolve_with(source, pending);
             match cv {
               ConfigValue::String(s) => {
-                println!("s = {}", s);
                 result.push_str(s);
               }
               _ => {}
@@ -159,32 +156,61 @@ impl ConfigResolver for ConfigValue {
         _ => {}
       },
       (cvr @ ConfigValue::Reference { .. }, Some(src)) => {
-        let mut ref_value = src
-          .get_value(cvr.ref_name().unwrap())
-          .cloned()
-          .or_else(|| env::var(cvr.ref_name().unwrap()).ok().map(|s| ConfigValue::String(s)));
-        match ref_value.as_mut() {
-          Some(ref_value_mut) => {
-            ref_value_mut.resolve(source);
-          }
-          _ => {}
-        }
-        if cvr.ref_missing().unwrap() {
-          if ref_value.is_some() {
-            *cvr = ref_value.unwrap();
-          } else {
-            *cvr = cvr.ref_prev().clone().unwrap().prev_latest().clone();
-          }
+        let path = cvr.ref_name().unwrap().clone();
+        let missing = cvr.ref_missing().unwrap();
+        // A reference to itself stands for the value it replaces.
+        let cyclic = pending.contains(&path);
+        let mut ref_value = if cyclic {
+          cvr.resolve_prev(src, pending)
         } else {
-          if ref_value.is_none() {
-            panic!("Cannot resolve the reference: {}", cvr.ref_name().unwrap())
-          }
-          *cvr = ref_value.unwrap();
+          pending.push(path.clone());
+          let found = src.find_resolved(&path, src, pending);
+          pending.pop();
+          found
+        };
+        if ref_value.is_none() {
+          ref_value = env::var(&path).ok().map(|s| ConfigValue::String(s));
+        }
+        if ref_value.is_none() && missing {
+          ref_value = cvr.resolve_prev(src, pending);
+        }
+        match ref_value {
+          Some(ref_value) => *cvr = ref_value,
+          None if missing => {}
+          None => panic!("Cannot resolve the reference: {}", path),
         }
       }
       _ => {}
     }
   }
+
+  // The resolved value that this reference replaces.
+  fn resolve_prev(&self, source: &Self, pending: &mut Vec<String>) -> Option<Self> {
+    let mut prev = self.ref_prev().as_ref().map(|prev| (**prev).clone())?;
+    prev.resolve_with(Some(source), pending);
+    Some(prev.latest().clone()).filter(|cv| !cv.is_undefined())
+  }
+
+  // The resolved value at the path, through references on the way.
+  fn find_resolved(&self, path: &str, source: &Self, pending: &mut Vec<String>) -> Option<Self> {
+    let mut cur = self.clone();
+    for key in path.split('.') {
+      if !matches!(cur, ConfigValue::Object(..)) {
+        cur.resolve_with(Some(source), pending);
+      }
+      cur = match cur.latest() {
+        ConfigValue::Object(cov) => cov.0.get(key)?.clone(),
+        _ => return None,
+      };
+    }
+    cur.resolve_with(Some(source), pending);
+    Some(cur.latest().clone()).filter(|cv| !cv.is_undefined())
+  }
+
+  // An optional reference that could not be resolved.
+  fn is_undefined(&self) -> bool {
+    matches!(self.latest(), ConfigValue::Reference { missing: true, .. })
+  }
 }
 
 impl ConfigValue {
@@ -384,20 +410,6 @@ impl ConfigValue {
       _ => None,
     }
   }
-
-  fn get_object_value(&self) -> Option<&ConfigObjectValue> {
-    match self {
-      ConfigValue::Object(cov) => Some(cov),
-      _ => None,
-    }
-  }
-
-  fn get_array_value(&self) -> Option<&ConfigArrayValue> {
-    match self {
-      ConfigValue::Array(cav) => Some(cav),
-      _ => None,
-    }
-  }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 32821fa78218bf4ff14c6a9263d081c4369bb8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:32 +0000
Subject: [PATCH 34/51] fix: a resolved configuration holds plain values

---
 hocon/src/model/config_value.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hocon/src/model/config_value.rs b/hocon/src/model/config_value.rs
index 1f120ff..751d8f5 100644
--- a/hocon/src/model/config_value.rs
+++ b/hocon/src/model/config_value.rs
@@ -120,7 +120,7 @@ impl ConfigValue {
             cv.resolve_with(source, pending);
             head.merge_with(cv);
           }
-          *cvl = head;
+          *cvl = head.latest().clone();
         }
       }
       (ConfigValue::Array(cav), Some(..)) => {
-- 
2.43.0


From 1bdab84d4098dd9f368f70051990a04c248c43a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:37 +0000
Subject: [PATCH 35/51] fix: includes load the named file, among other
 properties, and report errors

---
 hocon/src/model.rs              | 56 ++++++++++++++++++++++++---------
 hocon/src/model/config_value.rs | 16 +---------
 hocon/src/parsers.rs            | 22 +++----------
 3 files changed, 47 insertions(+), 47 deletions(-)

diff --git a/hocon/src/model.rs b/hocon/src/model.rs
index fcac9fe..99cee72 100644
--- a/hocon/src/model.rs
+++ b/hocon/src/model.rs
@@ -60,12 +60,14 @@ impl FileReader for DefaultFileReader {
 
 pub struct ConfigFactory {
   file_reader: Box<dyn FileReader>,
+  including: Vec<String>,
 }
 
 impl ConfigFactory {
   pub fn new() -> Self {
     Self {
       file_reader: Box::new(DefaultFileReader),
+      including: vec![],
     }
   }
 
@@ -76,17 +78,22 @@ impl ConfigFactory {
   }
 
   pub fn parse_from_string(&self, text: &str) -> Result<Config, ConfigError> {
+    self
+      .parse_unresolved(text)
+      .map(|config_value| Self::resolve_stage1(&config_value))
+      .map(|config_value| Config::new(config_value))
+  }
+
+  fn parse_unresolved(&self, text: &str) -> Result<ConfigValue, ConfigError> {
     hocon()
       .parse(text.as_bytes())
       .to_result()
-      .map(|config_values| Self::resolve_stage0(&config_values))
-      .map(|config_value| Self::resolve_stage1(&config_value))
-      .map(|config_value| Config::new(config_value))
       .map_err(|pe| {
         let msg = pe.to_string();
         let input_string = pe.input_string();
         ConfigError::ParseError(format!("{}: {:?}", msg, input_string))
       })
+      .and_then(|config_values| self.resolve_stage0(config_values))
   }
 
   fn resolve_stage1(config_value: &ConfigValue) -> ConfigValue {
@@ -95,18 +102,39 @@ impl ConfigFactory {
     c
   }
 
-  fn resolve_stage0(config_values: &Vec<ConfigValue>) -> ConfigValue {
-    let mut cur = match config_values.first() {
-      Some(cv) => cv.clone(),
-      None => ConfigValue::Object(ConfigObjectValue::new(HashMap::new())),
-    };
-    cur.resolve(None);
-    for cv in config_values.iter().skip(1) {
-      let mut t = cv.clone();
-      t.resolve(None);
-      cur.merge_with(t);
+  fn resolve_stage0(&self, config_values: Vec<ConfigValue>) -> Result<ConfigValue, ConfigError> {
+    let mut cur: Option<ConfigValue> = None;
+    for cv in config_values {
+      let cv = match cv {
+        ConfigValue::Include(civ) => self.load_include(&civ.file_name)?,
+        cv => cv,
+      };
+      match cur.as_mut() {
+        None => cur = Some(cv),
+        Some(cur) => cur.merge_with(cv),
+      }
+    }
+    Ok(cur.unwrap_or_else(|| ConfigValue::Object(ConfigObjectValue::new(HashMap::new()))))
+  }
+
+  // A file that does not exist counts as empty.
+  fn load_include(&self, quoted_file_name: &str) -> Result<ConfigValue, ConfigError> {
+    let file_name = quoted_file_name.trim_matches('"').to_string();
+    if self.including.contains(&file_name) {
+      return Err(ConfigError::ParseError(format!("{} includes itself", file_name)));
     }
-    cur
+    let mut including = self.including.clone();
+    including.push(file_name.clone());
+    let mut text = String::new();
+    match DefaultFileReader.read_to_string(&file_name, &mut text) {
+      Err(ConfigError::FileNotFoundError) => (),
+      result => result?,
+    }
+    let config_factory = Self {
+      including,
+      ..Self::new()
+    };
+    config_factory.parse_unresolved(&text)
   }
 }
 
diff --git a/hocon/src/model/config_value.rs b/hocon/src/model/config_value.rs
index 751d8f5..e43970b 100644
--- a/hocon/src/model/config_value.rs
+++ b/hocon/src/model/config_value.rs
@@ -12,7 +12,7 @@ use crate::model::config_include_value::ConfigIncludeValue;
 use crate::model::config_number_value::ConfigNumberValue;
 use crate::model::config_object_value::ConfigObjectValue;
 use crate::model::config_value_link::ConfigValueLink;
-use crate::model::{ConfigFactory, ConfigMergeable, ConfigResolver, Monoid};
+use crate::model::{ConfigMergeable, ConfigResolver, Monoid};
 use crate::parsers::key;
 
 #[derive(Clone, Debug, PartialEq)]
@@ -100,13 +100,6 @@ impl ConfigValue {
   // `pending` holds the paths of the references that are being resolved.
   fn resolve_with(&mut self, source: Option<&Self>, pending: &mut Vec<String>) {
     match (self, source) {
-      (cvi @ ConfigValue::Include(..), ..) => {
-        let mut config_factory = ConfigFactory::new();
-        let c = config_factory
-          .load_from_file(&cvi.get_include_value().unwrap().file_name)
-          .unwrap();
-        *cvi = c.to_config_value().clone();
-      }
       (cvl @ ConfigValue::Link(..), Some(..)) => {
         let cvs = cvl.to_vec();
         // Only objects, and references that may stand for objects, build on what is before them.
@@ -403,13 +396,6 @@ impl ConfigValue {
       _ => None,
     }
   }
-
-  fn get_include_value(&self) -> Option<&ConfigIncludeValue> {
-    match self {
-      ConfigValue::Include(civ) => Some(civ),
-      _ => None,
-    }
-  }
 }
 
 #[cfg(test)]
diff --git a/hocon/src/parsers.rs b/hocon/src/parsers.rs
index 5a53405..4204c00 100644
--- a/hocon/src/parsers.rs
+++ b/hocon/src/parsers.rs
@@ -27,7 +27,7 @@ fn include_method<'a>() -> Parser<'a, u8, String> {
 }
 
 fn include_config_value<'a>() -> Parser<'a, u8, ConfigValue> {
-  (seq(b"include") * elm(b' ') * include_method() + path().surround(seq(b"(\""), seq(b"\")")))
+  (seq(b"include") * elm(b' ') * include_method() + string_chars(b"\r\n\\\"").surround(seq(b"(\""), seq(b"\")")))
     .map(|(method, path)| ConfigValue::Include(ConfigIncludeValue::new(method, format!("\"{}\"", path))))
 }
 
@@ -300,23 +300,9 @@ fn config_value<'a>() -> Parser<'a, u8, ConfigValue> {
 }
 
 fn config<'a>() -> Parser<'a, u8, Vec<ConfigValue>> {
-  (property_config_value().of_many1_sep(comma().opt()) - comma().opt())
-    .map(|values: Vec<(String, ConfigValue)>| {
-      let map = values.into_iter().fold(HashMap::new(), |mut key_values, (k, v)| {
-        match key_values.get_mut(&k) {
-          None => {
-            key_values.insert(k, v);
-          }
-          Some(cv) => {
-            cv.merge_with(v);
-          }
-        }
-        key_values
-      });
-      vec![ConfigValue::Object(ConfigObjectValue::new(map))]
-    })
-    .attempt()
-    | include_config_value().of_many1().attempt()
+  let include = include_config_value().surround(space_or_comment(), space_or_comment());
+  let property = property_config_value().map(|kv| ConfigValue::Object(ConfigObjectValue::from(kv)));
+  ((include.attempt() | property).of_many1_sep(comma().opt()) - comma().opt()).attempt()
     | (object_config_value().attempt() | array_config_value()).of_many0()
 }
 
-- 
2.43.0


From f1b2cf579ba12f02febe4fa0c7b38a7e0cc2699c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:23 +0000
Subject: [PATCH 36/51] fix: durations keep fractions, and conversions out of
 range are errors

---
 hocon/src/model/config_duration_value.rs | 55 +++++++++++++-----------
 hocon/src/model/config_value.rs          |  4 +-
 2 files changed, 33 insertions(+), 26 deletions(-)

diff --git a/hocon/src/model/config_duration_value.rs b/hocon/src/model/config_duration_value.rs
index f1f9d87..5534a46 100644
--- a/hocon/src/model/config_duration_value.rs
+++ b/hocon/src/model/config_duration_value.rs
@@ -4,6 +4,10 @@ use std::fmt::{Display, Formatter};
 use std::time::Duration;
 
 use anyhow::{bail, Result};
+use rust_decimal::prelude::ToPrimitive;
+use rust_decimal::Decimal;
+
+const NANOS_PER_SEC: i128 = 1_000_000_000;
 
 #[derive(Clone, Debug, PartialEq)]
 pub struct ConfigDurationValue {
@@ -26,7 +30,8 @@ impl From<Duration> for ConfigDurationValue {
 
 impl From<chrono::Duration> for ConfigDurationValue {
   fn from(value: chrono::Duration) -> Self {
-    let config_number_value = ConfigNumberValue::from(value.num_nanoseconds().unwrap());
+    let nanos = value.num_seconds() as i128 * NANOS_PER_SEC + value.subsec_nanos() as i128;
+    let config_number_value = ConfigNumberValue::from(nanos);
     Self::new(config_number_value, TimeUnit::Nanoseconds)
   }
 }
@@ -36,35 +41,37 @@ impl ConfigDurationValue {
     Self { value, unit }
   }
 
-  pub fn to_std_duration(&self) -> Result<Duration> {
-    let value = match self.clone().value.to_u64() {
-      Some(v) => v,
-      None => bail!("Occurred convert error: {:?}", self.value),
+  fn to_nanos(&self) -> Result<i128> {
+    let nanos_per_unit: i64 = match self.unit {
+      TimeUnit::Nanoseconds => 1,
+      TimeUnit::Microseconds => 1_000,
+      TimeUnit::Milliseconds => 1_000_000,
+      TimeUnit::Seconds => 1_000_000_000,
+      TimeUnit::Minutes => 60 * 1_000_000_000,
+      TimeUnit::Hours => 60 * 60 * 1_000_000_000,
+      TimeUnit::Days => 24 * 60 * 60 * 1_000_000_000,
     };
-    match self.unit {
-      TimeUnit::Nanoseconds => Ok(Duration::from_nanos(value)),
-      TimeUnit::Microseconds => Ok(Duration::from_micros(value)),
-      TimeUnit::Milliseconds => Ok(Duration::from_millis(value)),
-      TimeUnit::Seconds => Ok(Duration::from_secs(value)),
-      TimeUnit::Minutes => Ok(Duration::from_secs(value * 60)),
-      TimeUnit::Hours => Ok(Duration::from_secs(value * 60 * 60)),
-      TimeUnit::Days => Ok(Duration::from_secs(value * 60 * 60 * 24)),
+    let nanos = self.value.as_decimal().checked_mul(Decimal::from(nanos_per_unit));
+    match nanos.and_then(|nanos| nanos.to_i128()) {
+      Some(nanos) => Ok(nanos),
+      None => bail!("Occurred convert error: {:?}", self.value),
+    }
+  }
+
+  pub fn to_std_duration(&self) -> Result<Duration> {
+    let nanos = self.to_nanos()?;
+    match u64::try_from(nanos.div_euclid(NANOS_PER_SEC)) {
+      Ok(secs) => Ok(Duration::new(secs, nanos.rem_euclid(NANOS_PER_SEC) as u32)),
+      Err(_) => bail!("Occurred convert error: {:?}", self.value),
     }
   }
 
   pub fn to_duration(&self) -> Result<chrono::Duration> {
-    let value = match self.clone().value.to_i64() {
-      Some(v) => v,
+    let nanos = self.to_nanos()?;
+    let secs = i64::try_from(nanos.div_euclid(NANOS_PER_SEC)).ok();
+    match secs.and_then(|secs| chrono::Duration::new(secs, nanos.rem_euclid(NANOS_PER_SEC) as u32)) {
+      Some(duration) => Ok(duration),
       None => bail!("Occurred convert error: {:?}", self.value),
-    };
-    match self.unit {
-      TimeUnit::Nanoseconds => Ok(chrono::Duration::nanoseconds(value)),
-      TimeUnit::Microseconds => Ok(chrono::Duration::microseconds(value)),
-      TimeUnit::Milliseconds => Ok(chrono::Duration::milliseconds(value)),
-      TimeUnit::Seconds => Ok(chrono::Duration::seconds(value)),
-      TimeUnit::Minutes => Ok(chrono::Duration::minutes(value)),
-      TimeUnit::Hours => Ok(chrono::Duration::hours(value)),
-      TimeUnit::Days => Ok(chrono::Duration::days(value)),
     }
   }
 }
diff --git a/hocon/src/model/config_value.rs b/hocon/src/model/config_value.rs
index e43970b..1f24efe 100644
--- a/hocon/src/model/config_value.rs
+++ b/hocon/src/model/config_value.rs
@@ -251,11 +251,11 @@ impl ConfigValue {
   }
 
   pub fn as_duration(&self) -> Option<Duration> {
-    self.as_config_duration_value().map(|e| e.to_duration().unwrap())
+    self.as_config_duration_value().and_then(|e| e.to_duration().ok())
   }
 
   pub fn as_std_duration(&self) -> Option<std::time::Duration> {
-    self.as_config_duration_value().map(|e| e.to_std_duration().unwrap())
+    self.as_config_duration_value().and_then(|e| e.to_std_duration().ok())
   }
 
   pub fn as_config_array_value(&self) -> Option<&ConfigArrayValue> {
-- 
2.43.0


From d34ad346ac9f232817b18397345bf57690baae24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:27 +0000
Subject: [PATCH 37/51] fix: a string is shown as a literal that reads back

---
 hocon/src/model/config_value.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/hocon/src/model/config_value.rs b/hocon/src/model/config_value.rs
index 1f24efe..0520d90 100644
--- a/hocon/src/model/config_value.rs
+++ b/hocon/src/model/config_value.rs
@@ -42,7 +42,7 @@ impl Display for ConfigValue {
     let s = match self {
       ConfigValue::Null => "null".to_string(),
       ConfigValue::Bool(value) => value.to_string(),
-      ConfigValue::String(value) => format!("\"{}\"", value.to_string()),
+      ConfigValue::String(value) => quote(value),
       ConfigValue::Number(cnv) => cnv.to_string(),
       ConfigValue::Duration(cdv) => cdv.to_string(),
       ConfigValue::Array(cav) => cav.to_string(),
@@ -56,6 +56,21 @@ impl Display for ConfigValue {
   }
 }
 
+fn quote(value: &str) -> String {
+  let mut s = String::from("\"");
+  for c in value.chars() {
+    match c {
+      '"' => s.push_str("\\\""),
+      '\\' => s.push_str("\\\\"),
+      '\n' => s.push_str("\\n"),
+      '\r' => s.push_str("\\r"),
+      c => s.push(c),
+    }
+  }
+  s.push('"');
+  s
+}
+
 impl Monoid for ConfigValue {
   fn combine(&mut self, other: &Self) {
     match other {
-- 
2.43.0


From a60643e952c1f1be97d3478f778b99c056f348b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:47 +0000
Subject: [PATCH 38/51] fix: any number of comments may stand in a row

---
 hocon/src/parsers.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hocon/src/parsers.rs b/hocon/src/parsers.rs
index 4204c00..16766ba 100644
--- a/hocon/src/parsers.rs
+++ b/hocon/src/parsers.rs
@@ -16,7 +16,9 @@ fn space<'a>() -> Parser<'a, u8, &'a [u8]> {
 }
 
 fn space_or_comment<'a>() -> Parser<'a, u8, ()> {
-  (comment().attempt() | space()).discard()
+  (comment().attempt().discard() | elm_ref_of(b" \t\r\n").discard())
+    .of_many0()
+    .discard()
 }
 
 fn include_method<'a>() -> Parser<'a, u8, String> {
-- 
2.43.0


From a55047e65c8e5b7f5dac6d1664b96fc06af20a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:24 +0000
Subject: [PATCH 39/51] fix: merging the resolved values of a key leaves plain
 values

---
 hocon/src/model/config_value.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/hocon/src/model/config_value.rs b/hocon/src/model/config_value.rs
index 0520d90..41d081b 100644
--- a/hocon/src/model/config_value.rs
+++ b/hocon/src/model/config_value.rs
@@ -128,7 +128,8 @@ impl ConfigValue {
             cv.resolve_with(source, pending);
             head.merge_with(cv);
           }
-          *cvl = head.latest().clone();
+          head.settle();
+          *cvl = head;
         }
       }
       (ConfigValue::Array(cav), Some(..)) => {
@@ -215,6 +216,19 @@ impl ConfigValue {
     Some(cur.latest().clone()).filter(|cv| !cv.is_undefined())
   }
 
+  // Keeps only the latest value, at every level.
+  fn settle(&mut self) {
+    match self {
+      ConfigValue::Link(..) => {
+        *self = self.latest().clone();
+        self.settle();
+      }
+      ConfigValue::Array(cav) => cav.0.iter_mut().for_each(Self::settle),
+      ConfigValue::Object(cov) => cov.0.values_mut().for_each(Self::settle),
+      _ => {}
+    }
+  }
+
   // An optional reference that could not be resolved.
   fn is_undefined(&self) -> bool {
     matches!(self.latest(), ConfigValue::Reference { missing: true, .. })
-- 
2.43.0


From ddc2519f3e30b9ba77ecbe36e2eedc311c2b88ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:28 +0000
Subject: [PATCH 40/51] fix: a key that is no bare word is shown quoted

---
 hocon/src/model/config_object_value.rs | 6 ++++--
 hocon/src/model/config_value.rs        | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/hocon/src/model/config_object_value.rs b/hocon/src/model/config_object_value.rs
index de1c8f5..9cf1129 100644
--- a/hocon/src/model/config_object_value.rs
+++ b/hocon/src/model/config_object_value.rs
@@ -1,4 +1,4 @@
-use crate::model::config_value::ConfigValue;
+use crate::model::config_value::{quote, ConfigValue};
 use crate::model::{ConfigMergeable, Monoid};
 use std::collections::HashMap;
 use std::fmt::{Display, Formatter};
@@ -14,7 +14,9 @@ impl Display for ConfigObjectValue {
       if !s.is_empty() {
         s.push_str(", ");
       }
-      let line = format!("{} = {}", k, v);
+      let bare = !k.is_empty() && k.chars().all(|c| c.is_ascii_alphanumeric() || c == '-' || c == '_');
+      let key = if bare { k.clone() } else { quote(k) };
+      let line = format!("{} = {}", key, v);
       s.push_str(&line);
     }
     write!(f, "{{ {} }}", s)
diff --git a/hocon/src/model/config_value.rs b/hocon/src/model/config_value.rs
index 41d081b..74f5614 100644
--- a/hocon/src/model/config_value.rs
+++ b/hocon/src/model/config_value.rs
@@ -56,7 +56,7 @@ impl Display for ConfigValue {
   }
 }
 
-fn quote(value: &str) -> String {
+pub(crate) fn quote(value: &str) -> String {
   let mut s = String::from("\"");
   for c in value.chars() {
     match c {
-- 
2.43.0


From 23e9a242d289027ab9f26c9af7c75e37ea33db8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:40 +0000
Subject: [PATCH 41/51] fix: merged objects count once in the history of a key

---
 hocon/src/model/config_value.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/hocon/src/model/config_value.rs b/hocon/src/model/config_value.rs
index 74f5614..e212f2b 100644
--- a/hocon/src/model/config_value.rs
+++ b/hocon/src/model/config_value.rs
@@ -95,10 +95,8 @@ impl ConfigMergeable for ConfigValue {
           l.merge_with(cv);
         }
       }
-      (l @ ConfigValue::Link(..), r @ ConfigValue::Object(..)) if l.latest().as_object().is_some() => {
-        let mut cv = l.latest().clone();
-        cv.merge_with(r);
-        l.push(cv);
+      (ConfigValue::Link(cvl), r @ ConfigValue::Object(..)) if cvl.value.as_object().is_some() => {
+        Rc::make_mut(cvl).value.merge_with(r);
       }
       (l, r) => l.push(r),
     }
-- 
2.43.0


From c07b529b7b61d5f55f7ce3dff35d5e7e84c7b883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:30 +0000
Subject: [PATCH 42/51] fix: parameters and global variables are bound

---
 toys/src/interpreter.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/toys/src/interpreter.rs b/toys/src/interpreter.rs
index 6b0621f..41e95a2 100644
--- a/toys/src/interpreter.rs
+++ b/toys/src/interpreter.rs
@@ -33,8 +33,8 @@ impl Interpreter {
         for top_level in definitions {
           match &**top_level {
             Expr::GlobalVariableDefinition(name, expr) => {
-              let mut bindings = self.variable_environment.as_bindings().clone();
-              bindings.insert(name.clone(), self.interpret(expr.clone()));
+              let value = self.interpret(expr.clone());
+              self.variable_environment.as_bindings_mut().insert(name.clone(), value);
             }
             Expr::FunctionDefinition(name, ..) => {
               self.function_environment.insert(name.clone(), top_level.clone());
@@ -146,7 +146,7 @@ impl Interpreter {
           self.variable_environment = Environment::new(HashMap::new(), Some(Rc::new(backup.clone())));
           let mut i = 0;
           for formal_param_name in formal_params {
-            let mut bindings = self.variable_environment.as_bindings().clone();
+            let bindings = self.variable_environment.as_bindings_mut();
             bindings.insert(formal_param_name.clone(), values[i].clone());
             i += 1;
           }
@@ -171,7 +171,7 @@ impl Interpreter {
           let backup = self.variable_environment.clone();
           self.variable_environment = Environment::new(HashMap::new(), Some(Rc::new(backup.clone())));
           for (param_name, param_value) in name_with_values {
-            let mut bindings = self.variable_environment.as_bindings().clone();
+            let bindings = self.variable_environment.as_bindings_mut();
             bindings.insert(param_name, param_value);
           }
           let result = self.interpret(body.clone());
-- 
2.43.0


From a62d0181cd372bcc989dba8b1603ad9a8360a122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:30 +0000
Subject: [PATCH 43/51] fix: a function can assign to variables of its callers

---
 toys/src/environment.rs | 14 ++++++++++++++
 toys/src/interpreter.rs | 39 ++++++++++++++++++++-------------------
 2 files changed, 34 insertions(+), 19 deletions(-)

diff --git a/toys/src/environment.rs b/toys/src/environment.rs
index 2ac3d6b..e166770 100644
--- a/toys/src/environment.rs
+++ b/toys/src/environment.rs
@@ -30,6 +30,20 @@ impl Environment {
     }
   }
 
+  /// Assigns to the variable where it is bound; false when it is not.
+  pub fn assign(&mut self, name: &str, value: &Value) -> bool {
+    match self.bindings.get_mut(name) {
+      Some(v) => {
+        *v = value.clone();
+        true
+      }
+      None => match &mut self.next {
+        Some(n) => Rc::make_mut(n).assign(name, value),
+        None => false,
+      },
+    }
+  }
+
   pub fn new(bindings: HashMap<String, Value>, next: Option<Rc<Environment>>) -> Environment {
     Self { bindings, next }
   }
diff --git a/toys/src/interpreter.rs b/toys/src/interpreter.rs
index 41e95a2..84df2f3 100644
--- a/toys/src/interpreter.rs
+++ b/toys/src/interpreter.rs
@@ -55,6 +55,18 @@ impl Interpreter {
     }
   }
 
+  fn enter(&mut self) {
+    let outer = std::mem::replace(&mut self.variable_environment, Environment::new(HashMap::new(), None));
+    self.variable_environment.next = Some(Rc::new(outer));
+  }
+
+  // What the callee assigned to variables of its callers stays.
+  fn leave(&mut self) {
+    if let Some(outer) = self.variable_environment.next.take() {
+      self.variable_environment = Rc::try_unwrap(outer).unwrap_or_else(|outer| (*outer).clone());
+    }
+  }
+
   pub fn interpret(&mut self, expr: Rc<Expr>) -> Value {
     match &*expr {
       Expr::Binary(op, lhs, rhs) => {
@@ -85,21 +97,12 @@ impl Interpreter {
         v.clone()
       }
       Expr::Assignment(name, expr) => {
-        let bindings_opt = self.variable_environment.find_binding(name);
-        if bindings_opt.is_some() {
-          let value = self.interpret(expr.clone());
-          let mut bindings = self.variable_environment.as_bindings().clone();
-          let r = bindings.get_mut(name).unwrap();
-          *r = value.clone();
-          self.variable_environment = Environment::new(bindings, self.variable_environment.next.clone());
-          value
-        } else {
-          let value = self.interpret(expr.clone());
-          let mut bindings = self.variable_environment.as_bindings().clone();
+        let value = self.interpret(expr.clone());
+        if !self.variable_environment.assign(name, &value) {
+          let bindings = self.variable_environment.as_bindings_mut();
           bindings.insert(name.clone(), value.clone());
-          self.variable_environment = Environment::new(bindings, self.variable_environment.next.clone());
-          value
         }
+        value
       }
       Expr::Block(exprs) => {
         let mut value = None;
@@ -142,8 +145,7 @@ impl Interpreter {
             .iter()
             .map(|actual_param| self.interpret(actual_param.clone()))
             .collect::<Vec<_>>();
-          let backup = self.variable_environment.clone();
-          self.variable_environment = Environment::new(HashMap::new(), Some(Rc::new(backup.clone())));
+          self.enter();
           let mut i = 0;
           for formal_param_name in formal_params {
             let bindings = self.variable_environment.as_bindings_mut();
@@ -151,7 +153,7 @@ impl Interpreter {
             i += 1;
           }
           let result = self.interpret(body.clone());
-          self.variable_environment = backup.clone();
+          self.leave();
           result
         } else {
           panic!("Function {} not defined", name);
@@ -168,14 +170,13 @@ impl Interpreter {
               )
             })
             .collect::<Vec<_>>();
-          let backup = self.variable_environment.clone();
-          self.variable_environment = Environment::new(HashMap::new(), Some(Rc::new(backup.clone())));
+          self.enter();
           for (param_name, param_value) in name_with_values {
             let bindings = self.variable_environment.as_bindings_mut();
             bindings.insert(param_name, param_value);
           }
           let result = self.interpret(body.clone());
-          self.variable_environment = backup.clone();
+          self.leave();
           result
         } else {
           panic!("Function {} not defined", name);
-- 
2.43.0


From e73bfa09d0b6f52939d28bf22532848234fb6b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:30 +0000
Subject: [PATCH 44/51] fix: boolean and array literals can be evaluated

---
 toys/src/interpreter.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/toys/src/interpreter.rs b/toys/src/interpreter.rs
index 84df2f3..95242d9 100644
--- a/toys/src/interpreter.rs
+++ b/toys/src/interpreter.rs
@@ -90,6 +90,8 @@ impl Interpreter {
       }
       Expr::StringLiteral(value) => Value::String(value.clone()),
       Expr::IntegerLiteral(value) => Value::Int(*value),
+      Expr::BoolLiteral(value) => Value::Bool(*value),
+      Expr::ArrayLiteral(values) => Value::Array(values.iter().map(|value| self.interpret(value.clone())).collect()),
       Expr::Parenthesized(expr) => self.interpret(expr.clone()),
       Expr::Symbol(name) => {
         let bindings_opt = self.variable_environment.find_binding(name);
-- 
2.43.0


From c36f6e495c8c743ff74f38c73ddb2ef1e30379db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:30 +0000
Subject: [PATCH 45/51] fix: an empty block can be executed

---
 toys/src/interpreter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toys/src/interpreter.rs b/toys/src/interpreter.rs
index 95242d9..b741d66 100644
--- a/toys/src/interpreter.rs
+++ b/toys/src/interpreter.rs
@@ -111,7 +111,7 @@ impl Interpreter {
         for expr in exprs {
           value = Some(self.interpret(expr.clone()));
         }
-        value.unwrap()
+        value.unwrap_or(Value::Bool(true))
       }
       Expr::Println(args) => {
         let value = self.interpret(args.clone());
-- 
2.43.0


From ae8ebe000003dcc7ddadcd9194f1c3d4b2dda97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:30 +0000
Subject: [PATCH 46/51] fix: an identifier may begin like true or false

---
 toys/src/parsers.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/toys/src/parsers.rs b/toys/src/parsers.rs
index fb4d158..0d49860 100644
--- a/toys/src/parsers.rs
+++ b/toys/src/parsers.rs
@@ -9,6 +9,10 @@ fn ident<'a>() -> Parser<'a, char, String> {
   space() * regex(r"[a-zA-Z_][a-zA-Z0-9_]*") - space()
 }
 
+fn word<'a>(text: &'static str) -> Parser<'a, char, String> {
+  tag(text) - elm_pred(|c: &char| c.is_ascii_alphanumeric() || *c == '_').not()
+}
+
 fn add<'a>() -> Parser<'a, char, &'a char> {
   space() * elm_ref('+') - space()
 }
@@ -262,7 +266,7 @@ fn array_literal<'a>() -> Parser<'a, char, Rc<Expr>> {
 }
 
 fn bool_literal<'a>() -> Parser<'a, char, Rc<Expr>> {
-  let p = (tag("true").attempt() | tag("false")).map(|e| match e.as_str() {
+  let p = (word("true").attempt() | word("false").attempt()).map(|e| match e.as_str() {
     "true" => Expr::of_bool_literal(true),
     "false" => Expr::of_bool_literal(false),
     _ => panic!("unexpected token"),
-- 
2.43.0


From 759bd41933cff9b50694fbd0e58fa7bfafef36d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:30 +0000
Subject: [PATCH 47/51] fix: a line after an if may begin like else

---
 toys/src/parsers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toys/src/parsers.rs b/toys/src/parsers.rs
index 0d49860..4589242 100644
--- a/toys/src/parsers.rs
+++ b/toys/src/parsers.rs
@@ -137,7 +137,7 @@ fn r#for<'a>() -> Parser<'a, char, Rc<Expr>> {
 fn r#if<'a>() -> Parser<'a, char, Rc<Expr>> {
   let r#if = tag("if") - space();
   let condition = r#if * lparen() * expression() - rparen();
-  let r#else = space() * tag("else") - space();
+  let r#else = (space() * word("else")).attempt() - space();
   let p = (condition + line() + (r#else * line()).opt()).map(|((p1, p2), p3)| Expr::of_if(p1, p2, p3));
   (space() * p - space()).attempt().name("if").cache()
 }
-- 
2.43.0


From 7eeb078c1027ead2c24849648ab5c4007170396c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:30 +0000
Subject: [PATCH 48/51] fix: a program is accepted only as a whole

---
 toys/src/parsers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toys/src/parsers.rs b/toys/src/parsers.rs
index 4589242..65a0ca5 100644
--- a/toys/src/parsers.rs
+++ b/toys/src/parsers.rs
@@ -70,7 +70,7 @@ fn space<'a>() -> Parser<'a, char, ()> {
 }
 
 pub fn program<'a>() -> Parser<'a, char, Rc<Expr>> {
-  space() * top_level_definition().of_many0().map(Expr::Program).map(Rc::new)
+  space() * top_level_definition().of_many0().map(Expr::Program).map(Rc::new) - end()
 }
 
 fn top_level_definition<'a>() -> Parser<'a, char, Rc<Expr>> {
-- 
2.43.0


From da2b9cf7e039df28ae140928275e47032d21824a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:30 +0000
Subject: [PATCH 49/51] fix: a string literal may contain unicode escapes

---
 toys/src/parsers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toys/src/parsers.rs b/toys/src/parsers.rs
index 65a0ca5..f2ffdf2 100644
--- a/toys/src/parsers.rs
+++ b/toys/src/parsers.rs
@@ -298,7 +298,7 @@ fn string_literal<'a>() -> Parser<'a, char, Rc<Expr>> {
       .map(|r| r.unwrap_or(REPLACEMENT_CHARACTER))
       .collect::<String>()
   });
-  let string = (char_string | utf16_string)
+  let string = (char_string.attempt() | utf16_string)
     .of_many0()
     .surround(elm_ref('"'), elm_ref('"'));
   string
-- 
2.43.0


From 058b3fba54b4fb80c12bbbde79e0df2cb0376c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:14 +0000
Subject: [PATCH 50/51] fix: a regex may end in a comment

---
 parser/src/internal/parsers_impl/elements_parsers_impl.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/src/internal/parsers_impl/elements_parsers_impl.rs b/parser/src/internal/parsers_impl/elements_parsers_impl.rs
index 03e340a..ece830e 100644
--- a/parser/src/internal/parsers_impl/elements_parsers_impl.rs
+++ b/parser/src/internal/parsers_impl/elements_parsers_impl.rs
@@ -82,7 +82,10 @@ impl ElementsParsers for ParsersImpl {
 
   fn regex<'a>(pattern: &str) -> Self::P<'a, char, String> {
     // Anchor the whole pattern, not only its first alternative.
-    let regex = Regex::new(&format!("^(?:{})", pattern)).unwrap();
+    // (The line end closes a comment at the end of a pattern in verbose mode.)
+    let regex = Regex::new(&format!("^(?:{})", pattern))
+      .or_else(|_| Regex::new(&format!("^(?:{}\n)", pattern)))
+      .unwrap();
     Parser::new(move |parse_state| {
       let input: &[char] = parse_state.input();
       log::debug!("regex: input = {:?}", input);
-- 
2.43.0


From 9c0dbbaccd1903c63e4aa4b51972c55ff4c82b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:34 +0000
Subject: [PATCH 51/51] fix: a chain of operators may be of any length

---
 .../parsers_impl/operator_parsers_impl.rs     | 83 ++++++++++---------
 1 file changed, 44 insertions(+), 39 deletions(-)

diff --git a/parser/src/internal/parsers_impl/operator_parsers_impl.rs b/parser/src/internal/parsers_impl/operator_parsers_impl.rs
index dd199ce..da7e0c0 100644
--- a/parser/src/internal/parsers_impl/operator_parsers_impl.rs
+++ b/parser/src/internal/parsers_impl/operator_parsers_impl.rs
@@ -103,16 +103,14 @@ impl OperatorParsers for ParsersImpl {
   where
     BOP: Fn(A, A) -> A + 'a,
     A: Clone + Debug + 'a, {
-    let default_value = x.clone();
-    Self::or(
-      Self::flat_map(op.clone(), move |f| {
-        let default_value = x.clone();
-        Self::map(Self::chain_right1(p.clone(), op.clone()), move |y| {
-          f(default_value.clone(), y.clone())
-        })
-      }),
-      Self::successful(default_value.clone()),
-    )
+    Self::map(operations(p, op), move |operations| {
+      let mut x = x.clone();
+      let mut pending = vec![];
+      for (f, y) in operations {
+        pending.push((std::mem::replace(&mut x, y), f));
+      }
+      pending.into_iter().rev().fold(x, |y, (x, f)| f(x, y))
+    })
   }
 
   #[inline]
@@ -120,37 +118,44 @@ impl OperatorParsers for ParsersImpl {
   where
     BOP: Fn(A, A) -> A + 'a,
     A: Clone + Debug + 'a, {
-    let default_value = x.clone();
-    let method = p.method.clone();
-    let op_method = op.method.clone();
-    Self::or(
-      Parser::new(move |parse_state| {
-        let mut ps = parse_state.advance_by(0);
-        match op_method(&ps) {
-          ParseResult::Success { value: f, length: n1 } => {
-            ps = ps.advance_by(n1);
-            (match method(&ps) {
-              ParseResult::Success { value: y, length: n2 } => {
-                ps = ps.advance_by(n2);
-                Self::rest_left1(p.clone(), op.clone(), f(default_value.clone(), y))
-                  .run(&ps)
-                  .advance_success(n2)
-              }
-              ParseResult::Failure {
-                error,
-                committed_status,
-              } => ParseResult::failed(error, committed_status),
-            })
-            .add_commit(n1 != 0)
-            .advance_success(n1)
+    Self::map(operations(p, op), move |operations| {
+      operations.into_iter().fold(x.clone(), |x, (f, y)| f(x, y))
+    })
+  }
+}
+
+/// Operators and their right operands, as many as follow.
+fn operations<'a, I, A, BOP>(p: Parser<'a, I, A>, op: Parser<'a, I, BOP>) -> Parser<'a, I, Vec<(BOP, A)>>
+where
+  A: 'a,
+  BOP: 'a, {
+  Parser::new(move |parse_state| {
+    let mut operations = vec![];
+    let mut length = 0;
+    loop {
+      let ps = parse_state.advance_by(length);
+      let (error, committed_status) = match op.run(&ps) {
+        ParseResult::Success { value: f, length: n1 } => match p.run(&ps.advance_by(n1)) {
+          ParseResult::Success { value: y, length: n2 } => {
+            operations.push((f, y));
+            length += n1 + n2;
+            continue;
           }
           ParseResult::Failure {
             error,
             committed_status,
-          } => ParseResult::failed(error, committed_status),
-        }
-      }),
-      Self::successful(x.clone()),
-    )
-  }
+          } => (error, committed_status.or((n1 != 0).into())),
+        },
+        ParseResult::Failure {
+          error,
+          committed_status,
+        } => (error, committed_status),
+      };
+      return if committed_status.is_committed() {
+        ParseResult::failed(error, committed_status)
+      } else {
+        ParseResult::successful(operations, length)
+      };
+    }
+  })
 }
-- 
2.43.0

