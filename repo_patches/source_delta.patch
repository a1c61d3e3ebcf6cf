From 107a66d9aee8894142bc00e1bb7dcfda6bf53c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:27 +0000
Subject: [PATCH 01/32] fix: balance showed 0 for an account whose first
 posting was blank

The inferred amount was dropped when the blank posting was the first one of its account.
---
 src/ledger/mod.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index f9821de..48781a0 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -1,5 +1,5 @@
 use crate::account::Account;
-use crate::amount::{Amount, AmountPool};
+use crate::amount::AmountPool;
 use crate::entry::Entry;
 use crate::errors::*;
 use crate::importer::CsvImporter;
@@ -242,12 +242,11 @@ impl Ledger {
                     }
                 } else {
                     // if the posting amount exists, set an AmountPool from the amount as the
-                    // key's value. otherwise, use an AmountPool from a zero Amount.
+                    // key's value. otherwise, use an AmountPool from the entry's blank amount.
                     if let Some(a) = posting_amount {
                         totals_map.insert(posting_account.to_owned(), AmountPool::from(a.clone()));
-                    } else {
-                        totals_map
-                            .insert(posting_account.to_owned(), AmountPool::from(Amount::zero()));
+                    } else if let Some(b) = entry.get_blank_amount()? {
+                        totals_map.insert(posting_account.to_owned(), AmountPool::from(b));
                     }
                 }
             }
-- 
2.43.0


From a975b47e9e07452af59ed8573522aa449113b0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:27 +0000
Subject: [PATCH 02/32] fix: envelope postings no longer count towards an
 account's balance

---
 src/ledger/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index 48781a0..895465f 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -224,6 +224,11 @@ impl Ledger {
         // read: for each posting in the ledger, add its amount to its account in totals_map
         for entry in &self.entries {
             for posting in entry.get_postings() {
+                // envelope postings are virtual, so they don't change an account's balance
+                if posting.is_envelope() {
+                    continue;
+                }
+
                 let posting_amount = posting.get_amount();
                 let posting_account = posting.get_account();
                 // if the account key exists, just add to it. if it doesn't exist, insert a new
-- 
2.43.0


From edc6d3ba13ad1e1ca96c0645f9b9f2a205717f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:27 +0000
Subject: [PATCH 03/32] fix: envelope postings no longer take part in blank
 amount inference

Envelope postings only move money virtually; they were counted into the blank
posting's inferred amount, unbalancing the real postings of the entry.
---
 src/entry.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/entry.rs b/src/entry.rs
index 76b36fd..d107872 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -223,6 +223,11 @@ impl Entry {
                 // returns an error
                 let mut blank_amount = Amount::zero();
                 for posting in &self.postings {
+                    // envelope postings are virtual, so they don't affect the blank amount
+                    if posting.is_envelope() {
+                        continue;
+                    }
+
                     if let Some(v) = posting.get_original_native_value() {
                         blank_amount.mag -= v
                     } else {
@@ -246,7 +251,9 @@ currency's worth in your native currency.").set_context(&self.as_full_string());
 
                 // get starting blank amount by finding the first non-blank amount and then
                 // negating it
-                let mut blank_amount = if let Some(p) = iter.find(|p| p.get_amount().is_some()) {
+                let mut blank_amount = if let Some(p) =
+                    iter.find(|p| p.is_classic() && p.get_amount().is_some())
+                {
                     if let Some(a) = p.get_amount() {
                         -a.clone()
                     } else {
@@ -261,7 +268,7 @@ currency's worth in your native currency.").set_context(&self.as_full_string());
                 };
 
                 // subtract the rest of the postings
-                for posting in iter {
+                for posting in iter.filter(|p| p.is_classic()) {
                     if let Some(a) = posting.get_amount() {
                         blank_amount -= a.clone();
                     }
@@ -282,7 +289,7 @@ currency's worth in your native currency.").set_context(&self.as_full_string());
     fn validate(&self, context: &str) -> Result<(), ValidationError> {
         let mut blank_amounts = 0;
         let mut symbol_set = HashSet::new();
-        for posting in &self.postings {
+        for posting in self.postings.iter().filter(|p| p.is_classic()) {
             // does amount exist?
             if let Some(a) = posting.get_amount() {
                 // if so, add its symbol to the set if it exists
@@ -374,7 +381,9 @@ currency's worth in your native currency.").set_context(&self.as_full_string());
             false
         } else {
             let mut iter = self.postings.iter();
-            let symbol_to_match = if let Some(p) = iter.find(|&p| p.get_amount().is_some()) {
+            let symbol_to_match = if let Some(p) =
+                iter.find(|&p| p.is_classic() && p.get_amount().is_some())
+            {
                 if let Some(a) = p.get_amount() {
                     a.symbol.clone()
                 } else {
@@ -384,7 +393,7 @@ currency's worth in your native currency.").set_context(&self.as_full_string());
                 None
             };
 
-            for posting in iter {
+            for posting in iter.filter(|p| p.is_classic()) {
                 // this code was copied and pasted from above, maybe consider writing a function
                 let posting_symbol = if let Some(posting_amount) = posting.get_amount() {
                     posting_amount.symbol.clone()
-- 
2.43.0


From 2bfcc542712d4c1fad3f189c8460c588c4679e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:27 +0000
Subject: [PATCH 04/32] fix: report an error instead of crashing when an entry
 has only blank postings

---
 src/entry.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/entry.rs b/src/entry.rs
index d107872..1f5917f 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -262,9 +262,10 @@ currency's worth in your native currency.").set_context(&self.as_full_string());
                         unreachable!()
                     }
                 } else {
-                    // shouldn't be reachable, since there'd better be at least one non-blank
-                    // amount
-                    unreachable!()
+                    // there's nothing to infer the blank amount from
+                    return Err(ProcessingError::default()
+                        .set_message("silverfox can't infer the amount of a blank posting when an entry has no other amounts")
+                        .set_context(&self.as_full_string()));
                 };
 
                 // subtract the rest of the postings
-- 
2.43.0


From 892d150db0d3bd9eb037734bc54ecdac8d4c792c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:27 +0000
Subject: [PATCH 05/32] fix: a refund took money from its envelope instead of
 returning it

The minimum was meant to be taken over both absolute values.
---
 src/envelope.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/envelope.rs b/src/envelope.rs
index d53cfd5..6ede7b3 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -721,6 +721,7 @@ envelope. hopefully that all makes sense!", self.name, self.account);
         // the minimum of the absolute values of auto_postings_sum and self_account_postings_sum
         let abs_min_mag = auto_postings_sum
             .mag
+            .abs()
             .min(self_account_postings_sum.mag.abs());
 
         // only apply an amount if the magnitude to add is worth something
-- 
2.43.0


From 371451bf9ae7f92a98763c792bc68ad7fdfea1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:27 +0000
Subject: [PATCH 06/32] fix: crash when inferring an envelope movement from a
 converted amount

The magnitude was converted to the native currency but the symbol was kept.
---
 src/envelope.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/envelope.rs b/src/envelope.rs
index 6ede7b3..f14f62c 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -700,6 +700,7 @@ envelope. hopefully that all makes sense!", self.name, self.account);
                     });
                 } else if let Some(m) = posting.get_original_native_value() {
                     amount_to_add.mag = m;
+                    amount_to_add.symbol = None;
                 } else {
                     return Err(ProcessingError::default()
                                                                     .set_message(
-- 
2.43.0


From f2e001b5fc998ce57e5a01d3bf32d889b3db4f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:01 +0000
Subject: [PATCH 07/32] fix: the register counted virtual envelope postings as
 real money flow

---
 src/entry.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/entry.rs b/src/entry.rs
index 1f5917f..8f2c467 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -434,6 +434,11 @@ currency's worth in your native currency.").set_context(&self.as_full_string());
             let mut focused_amount = AmountPool::new();
 
             for p in &self.postings {
+                // envelope postings are virtual; no money actually flows
+                if p.is_envelope() {
+                    continue;
+                }
+
                 let name = p.get_account();
                 let amount = if let Some(a) = p.get_amount() {
                     a.clone()
-- 
2.43.0


From e13ee1346ec6555b5bc449db7445e8e3947ff813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:02 +0000
Subject: [PATCH 08/32] fix: report an error instead of crashing on an envelope
 posting in another currency

---
 src/envelope.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index f14f62c..86305bf 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -607,14 +607,13 @@ impl Envelope {
     /// and amounts), as well as the envelope's last_entry_date
     pub fn process_entry(&mut self, entry: &Entry) -> Result<(), ProcessingError> {
         if entry.has_envelope_posting() {
-            self.process_manual_postings(entry);
-            Ok(())
+            self.process_manual_postings(entry)
         } else {
             self.infer(entry)
         }
     }
 
-    fn process_manual_postings(&mut self, entry: &Entry) {
+    fn process_manual_postings(&mut self, entry: &Entry) -> Result<(), ProcessingError> {
         // manual envelopes
         for posting in entry.get_envelope_postings() {
             // process each envelope posting in the entry
@@ -628,10 +627,24 @@ impl Envelope {
 
                     let amount = envelope_posting.get_amount();
 
+                    if amount.symbol != self.amount.symbol {
+                        let message = format!(
+                            "the currency of this envelope posting doesn't match the currency of the envelope `{}` in `{}`",
+                            self.name, self.account
+                        );
+
+                        return Err(ProcessingError {
+                            message: Some(message),
+                            context: Some(entry.as_full_string()),
+                        });
+                    }
+
                     self.apply_amount(amount, *entry.get_date());
                 }
             }
         }
+
+        Ok(())
     }
 
     fn infer(&mut self, entry: &Entry) -> Result<(), ProcessingError> {
-- 
2.43.0


From 3fa74133bb72d754499f1719d95329362a69ba85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:02 +0000
Subject: [PATCH 09/32] fix: an older entry later in the journal made an
 envelope fill twice in a day

The date an envelope was last affected went backwards with entries that aren't
in chronological order.
---
 src/envelope.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index 86305bf..858cc4f 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -782,7 +782,7 @@ envelope. hopefully that all makes sense!", self.name, self.account);
             }
         }
 
-        self.last_transaction_date = date;
+        self.last_transaction_date = self.last_transaction_date.max(date);
     }
 
     pub fn get_type(&self) -> &EnvelopeType {
-- 
2.43.0


From 143c1d1dbf1413ac6c63daa81dec5460925da5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:03 +0000
Subject: [PATCH 10/32] fix: crash when the last due date falls in a month
 without the due day

---
 src/envelope.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index 858cc4f..8760d7d 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -236,7 +236,11 @@ impl Frequency {
             new_year -= 1;
         }
 
-        NaiveDate::from_ymd_opt(new_year, new_month0 as u32 + 1, date.day()).unwrap()
+        // the day might not exist in the new month, in which case the month's last day is used
+        let new_month = new_month0 as u32 + 1;
+        NaiveDate::from_ymd_opt(new_year, new_month, date.day()).unwrap_or_else(|| {
+            Self::get_last_date_of_month(NaiveDate::from_ymd_opt(new_year, new_month, 1).unwrap())
+        })
     }
 
     // this function is pretty long, so we should probably break it into smaller functions
-- 
2.43.0


From 14be5469a09e0bf116e20d35ba086dbd18d92e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:03 +0000
Subject: [PATCH 11/32] fix: last due date was off when the next due date was
 moved to the end of a short month

---
 src/envelope.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index 8760d7d..166ad4e 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -211,8 +211,14 @@ impl Frequency {
             match self {
                 Self::Weekly(_) => Some(next_date - chrono::Duration::days(7)),
                 Self::Biweekly(_) => Some(next_date - chrono::Duration::days(14)),
-                Self::Monthly(_) => Some(Self::subtract_months(next_date, 1)),
-                Self::Bimonthly(_) => Some(Self::subtract_months(next_date, 2)),
+                Self::Monthly(day_of_month) => {
+                    let last_date = Self::subtract_months(next_date, 1);
+                    Some(Self::with_day_or_last(last_date, *day_of_month))
+                }
+                Self::Bimonthly(starting_date) => {
+                    let last_date = Self::subtract_months(next_date, 2);
+                    Some(Self::with_day_or_last(last_date, starting_date.day()))
+                }
                 Self::Annually(d) => Some(d.with_year(d.year() - 1).unwrap()),
                 _ => None,
             }
@@ -324,6 +330,13 @@ impl Frequency {
             .unwrap()
     }
 
+    /// Returns the date with the `day` of its month, or the last day of the month if the month
+    /// doesn't have that day
+    fn with_day_or_last(date: NaiveDate, day: u32) -> NaiveDate {
+        date.with_day(day)
+            .unwrap_or_else(|| Self::get_last_date_of_month(date))
+    }
+
     fn next_date_by_day_of_month(today: NaiveDate, day: u32) -> NaiveDate {
         let last_date_this_month = Self::get_last_date_of_month(today);
 
-- 
2.43.0


From 59ccdefd7b015b28c303ca2d7060445d989e5832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:04 +0000
Subject: [PATCH 12/32] fix: annual due dates stayed in the past and crashed
 for February 29th

The next due date was always the year after the starting date, whatever the
current date, and no date at all when that day doesn't exist.
---
 src/envelope.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index 166ad4e..a2708a5 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -219,7 +219,7 @@ impl Frequency {
                     let last_date = Self::subtract_months(next_date, 2);
                     Some(Self::with_day_or_last(last_date, starting_date.day()))
                 }
-                Self::Annually(d) => Some(d.with_year(d.year() - 1).unwrap()),
+                Self::Annually(d) => Some(Self::anniversary(*d, next_date.year() - 1)),
                 _ => None,
             }
         } else {
@@ -316,7 +316,13 @@ impl Frequency {
                 if starting_date > &today {
                     Some(*starting_date)
                 } else {
-                    starting_date.with_year(starting_date.year() + 1)
+                    // use this year's anniversary, or next year's if it has already passed
+                    let this_year = Self::anniversary(*starting_date, today.year());
+                    if this_year > today {
+                        Some(this_year)
+                    } else {
+                        Some(Self::anniversary(*starting_date, today.year() + 1))
+                    }
                 }
             }
         }
@@ -337,6 +343,16 @@ impl Frequency {
             .unwrap_or_else(|| Self::get_last_date_of_month(date))
     }
 
+    /// Returns the date's anniversary in the given year. For February 29th, that's February 28th
+    /// when the year isn't a leap year.
+    fn anniversary(date: NaiveDate, year: i32) -> NaiveDate {
+        date.with_year(year).unwrap_or_else(|| {
+            Self::get_last_date_of_month(
+                NaiveDate::from_ymd_opt(year, date.month(), 1).unwrap(),
+            )
+        })
+    }
+
     fn next_date_by_day_of_month(today: NaiveDate, day: u32) -> NaiveDate {
         let last_date_this_month = Self::get_last_date_of_month(today);
 
-- 
2.43.0


From d04c5b52bcfd256685d3afb32f692e5f8b423e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:05 +0000
Subject: [PATCH 13/32] fix: every-other-week envelopes skipped a starting date
 in the next two weeks

---
 src/envelope.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/envelope.rs b/src/envelope.rs
index a2708a5..7a58d14 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -277,6 +277,10 @@ impl Frequency {
                 // the same weekday as `w` itself
 
                 // if starting date is after today, use that
+                if starting_date > &today {
+                    return Some(*starting_date);
+                }
+
                 let duration_passed = today.signed_duration_since(*starting_date);
                 let periods_passed = duration_passed.num_weeks() / 2;
                 let next = *starting_date + chrono::Duration::weeks((periods_passed + 1) * 2);
-- 
2.43.0


From aa04f96de79500c6c7108d251e597869cd9ee032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:05 +0000
Subject: [PATCH 14/32] fix: every-other-month envelopes were next due today,
 unlike all others

On the due date itself, the next due date is the following one for every other
frequency, and that is also how the last due date is derived.
---
 src/envelope.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index 7a58d14..e135a2e 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -296,7 +296,7 @@ impl Frequency {
                     // brute force method until we find something better to do...
                     let day_of_month = starting_date.day();
                     let mut date = *starting_date;
-                    while date < today {
+                    while date <= today {
                         let month0_plus_two = date.month0() + 2;
                         let new_year = date.year() + month0_plus_two as i32 / 12;
                         let new_month = (month0_plus_two % 12) + 1; // + 1 so it's one-based
-- 
2.43.0


From dfb31eef8ab47330f570233e9e24339bfa80889f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:06 +0000
Subject: [PATCH 15/32] fix: a comment after a due date or starting date broke
 the envelope definition

---
 src/envelope.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index e135a2e..c7b96cc 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -434,9 +434,8 @@ impl Envelope {
         date_format: &str,
         account_name: &str,
     ) -> Result<Self, ParseError> {
-        let tokens = utils::remove_comments(header)
-            .split_whitespace()
-            .collect::<Vec<&str>>();
+        header = utils::remove_comments(header).trim();
+        let tokens = header.split_whitespace().collect::<Vec<&str>>();
 
         if tokens.len() < 2 {
             return Err(ParseError {
@@ -596,7 +595,7 @@ impl Envelope {
                                 });
         }
 
-        let raw_freq = &clean_header[frequency_index..];
+        let raw_freq = clean_header[frequency_index..].trim();
         Frequency::parse(raw_freq, date_format, starting_date)
     }
 
-- 
2.43.0


From 3d9fc1b176d271e2852b05955ef7a296e3dda061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:07 +0000
Subject: [PATCH 16/32] fix: crash on a comment line between the properties of
 an envelope

---
 src/envelope.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/envelope.rs b/src/envelope.rs
index c7b96cc..842975e 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -488,6 +488,12 @@ impl Envelope {
         for line in body.lines() {
             let trimmed_line = utils::remove_comments(line).trim();
             let line_split = trimmed_line.split_whitespace().collect::<Vec<&str>>();
+
+            // skip blank lines and lines with nothing but a comment
+            if line_split.is_empty() {
+                continue;
+            }
+
             let key = line_split[0];
 
             // get the index of the first space (because that's where the values begins)
-- 
2.43.0


From 58234e47796cb9807aa556ffbbe1835bfb6c3d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:08 +0000
Subject: [PATCH 17/32] fix: report an error instead of crashing when an entry
 header is only a date

---
 src/entry.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/entry.rs b/src/entry.rs
index 8f2c467..aef3884 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -177,6 +177,12 @@ impl Entry {
         };
 
         // parse status
+        if header_tokens.len() < 2 {
+            return Err(ParseError {
+                message: Some("silverfox requires statuses on entries, but this entry doesn't have one".to_string()),
+                context: Some(clean_header.to_string()),
+            });
+        }
         let status = header_tokens[1].parse::<EntryStatus>()?;
 
         // parse description_and_payee
-- 
2.43.0


From f83fffb94258dc5218372c10990cf741393b3405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:08 +0000
Subject: [PATCH 18/32] fix: report an error instead of crashing when a payee's
 brackets are reversed

---
 src/entry.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entry.rs b/src/entry.rs
index aef3884..a27ec50 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -188,7 +188,7 @@ impl Entry {
         // parse description_and_payee
         let description_and_payee: &str = &header_tokens[2..].join(" ");
         let (description, payee) = if let Some(i) = description_and_payee.find('[') {
-            if let Some(j) = description_and_payee.rfind(']') {
+            if let Some(j) = description_and_payee.rfind(']').filter(|j| *j > i) {
                 // both brackets exist, so take everything before the opening bracket as the
                 // description and everything in the brackets as the payee
                 // yeah, this means anything after the closing bracket won't be included :/
-- 
2.43.0


From 278ead778e6514391672bc057d4a65377a6526d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:09 +0000
Subject: [PATCH 19/32] fix: report register errors instead of crashing on them

---
 src/flags.rs      | 2 +-
 src/ledger/mod.rs | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/flags.rs b/src/flags.rs
index eae16d7..1059aa4 100644
--- a/src/flags.rs
+++ b/src/flags.rs
@@ -92,7 +92,7 @@ impl CommandFlags {
         match self.subcommand {
             Subcommand::Balance => ledger.display_flat_balance()?,
             Subcommand::Envelopes => ledger.display_envelopes(),
-            Subcommand::Register => ledger.display_register(self.begin_date, self.end_date, None),
+            Subcommand::Register => ledger.display_register(self.begin_date, self.end_date, None)?,
             Subcommand::Import => {
                 if let Some(c) = &self.csv_file {
                     return ledger.import_csv(c, self.rules_file.as_ref());
diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index 895465f..0a2a15b 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -334,7 +334,7 @@ impl Ledger {
         begin_date: Option<NaiveDate>,
         end_date: Option<NaiveDate>,
         account_match: Option<String>,
-    ) {
+    ) -> Result<(), SilverfoxError> {
         Register::display(
             &self.entries,
             &self.date_format,
@@ -342,7 +342,6 @@ impl Ledger {
             end_date,
             account_match,
         )
-        .unwrap();
     }
 }
 
-- 
2.43.0


From bb45724e43f46daf6693ae286c4b8bc4b919335c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:10 +0000
Subject: [PATCH 20/32] fix: relative paths pointed elsewhere after a journal
 was read

The journal itself couldn't be appended to, and a second include was looked up
in the first one's directory.
---
 src/ledger/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index 0a2a15b..6bbe63d 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -58,9 +58,17 @@ impl Ledger {
         // change directory to parent after reading to string, and before parsing
         let parent_dir = file_path.parent().unwrap();
 
+        let previous_dir = std::env::current_dir();
         std::env::set_current_dir(parent_dir).unwrap_or(());
 
-        self.add_from_str(&s)
+        let result = self.add_from_str(&s);
+
+        // go back, so that other relative paths keep their meaning
+        if let Ok(d) = previous_dir {
+            std::env::set_current_dir(d).unwrap_or(());
+        }
+
+        result
     }
 
     /// Adds to the ledger from the contents parsed from the string
-- 
2.43.0


From cea16608242b7023e6bcf7d00f70b791850beee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:08 +0000
Subject: [PATCH 21/32] fix: an expense and a goal with the same name both took
 each envelope posting

---
 src/account.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/account.rs b/src/account.rs
index e783319..6c9fc58 100644
--- a/src/account.rs
+++ b/src/account.rs
@@ -109,14 +109,19 @@ impl Account {
     }
 
     pub fn add_envelope(&mut self, envelope: Envelope) -> Result<(), ValidationError> {
+        // expenses and goals share their names, since postings refer to an envelope only by its
+        // name
+        let envelope_exists = self
+            .expense_envelopes
+            .iter()
+            .chain(self.goal_envelopes.iter())
+            .any(|e| e.get_name() == envelope.get_name());
+
         let envelope_collection = match envelope.get_type() {
             EnvelopeType::Expense => &mut self.expense_envelopes,
             EnvelopeType::Goal => &mut self.goal_envelopes,
         };
 
-        let envelope_exists = envelope_collection
-            .iter()
-            .any(|e| e.get_name() == envelope.get_name());
         if envelope_exists {
             Err(ValidationError {
                 message: Some(format!(
-- 
2.43.0


From bbb368221482218b21075ad8d026ddaa20084a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:09 +0000
Subject: [PATCH 22/32] fix: crash on import rules with non-ASCII characters

A character index was used as a byte index.
---
 src/importer.rs | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/importer.rs b/src/importer.rs
index 5db8033..30e6660 100644
--- a/src/importer.rs
+++ b/src/importer.rs
@@ -196,9 +196,9 @@ impl Rules {
 
             if line.starts_with("if") {
                 parsing_subrules = Some(Subrules::from(&*self));
-                if let Some(i) = line.chars().position(|c| c.is_whitespace()) {
+                if let Some((_, pattern)) = line.split_once(char::is_whitespace) {
                     if let Some(s) = parsing_subrules.as_mut() {
-                        s.patterns.push(String::from(&line[i + 1..]))
+                        s.patterns.push(String::from(pattern))
                     } else {
                         unreachable!()
                     }
@@ -219,9 +219,8 @@ impl Rules {
     fn add_from_line(&mut self, mut line: &str) -> Result<(), SilverfoxError> {
         line = line.trim_start();
 
-        let split_index = if let Some(i) = line.chars().position(|c| c.is_whitespace()) {
-            i
-        } else {
+        // the first token is the rule name, and the rest of the line is the value
+        let Some((rule_name, rest)) = line.split_once(char::is_whitespace) else {
             return Err(SilverfoxError::from(ParseError {
                 message: Some(format!(
                     "this rule has no value. use `-` if you want to discard a value:\n\n{} -",
@@ -231,13 +230,7 @@ impl Rules {
             }));
         };
 
-        // the first token is the rule name
-        let rule_name = &line[..split_index];
-
-        // the rest of the line is the value
-        let rule_value = String::from(&line[split_index + 1..])
-            .trim_start()
-            .to_string();
+        let rule_value = rest.trim_start().to_string();
 
         if rule_value.trim() == "-" {
             // resets a value
-- 
2.43.0


From 3f108f60505f295122aa0667c15942a1d0f20fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:10 +0000
Subject: [PATCH 23/32] fix: report an error instead of crashing on an empty
 decimal_symbol rule

---
 src/importer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/importer.rs b/src/importer.rs
index 30e6660..8f65104 100644
--- a/src/importer.rs
+++ b/src/importer.rs
@@ -284,7 +284,7 @@ impl Rules {
                 "date_format" => self.date_format = rule_value,
                 "date" => self.date_str = rule_value,
                 "decimal_symbol" | "decimal" => {
-                    if rule_value.len() > 1 {
+                    if rule_value.chars().count() != 1 {
                         return Err(SilverfoxError::from(ParseError {
                             message: Some(
                                 "decimal_symbol should be a single character".to_string(),
-- 
2.43.0


From 9dbb611e3560bc93ece2319c74c34d5ee6f29a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:11 +0000
Subject: [PATCH 24/32] fix: an import could append entries that silverfox then
 refuses to read

Entries parsed from a journal are validated, imported ones weren't, so one with
several blank postings made the whole journal unreadable.
---
 src/entry.rs    | 2 +-
 src/importer.rs | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/entry.rs b/src/entry.rs
index a27ec50..1416e68 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -293,7 +293,7 @@ currency's worth in your native currency.").set_context(&self.as_full_string());
     /// - it's balanced (the sum of its postings equals zero)
     /// - it contains no more than one type of currency when a blank posting amount exists (later
     ///   to be supported)
-    fn validate(&self, context: &str) -> Result<(), ValidationError> {
+    pub fn validate(&self, context: &str) -> Result<(), ValidationError> {
         let mut blank_amounts = 0;
         let mut symbol_set = HashSet::new();
         for posting in self.postings.iter().filter(|p| p.is_classic()) {
diff --git a/src/importer.rs b/src/importer.rs
index 8f65104..b456a59 100644
--- a/src/importer.rs
+++ b/src/importer.rs
@@ -466,7 +466,9 @@ impl Rules {
                 Err(SilverfoxError::from(ValidationError::default().set_context(record.as_slice()).set_message("this record produced an entry without any postings. make sure you've included rules for `account` and `amount` so that postings can be generated")))
             },
             _ => {
-                Ok(Entry::new(date, status, description, payee, postings, comment))
+                let entry = Entry::new(date, status, description, payee, postings, comment);
+                entry.validate(record.as_slice())?;
+                Ok(entry)
             }
         }
     }
-- 
2.43.0


From 40e0dce63a2389b29aaee0d776ae65dca79a9c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:11 +0000
Subject: [PATCH 25/32] fix: reject entries that don't balance

An entry is documented to be valid only if the sum of its postings equals zero,
but this wasn't checked.
---
 src/entry.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/entry.rs b/src/entry.rs
index 1416e68..b2b814c 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -322,6 +322,26 @@ currency's worth in your native currency.").set_context(&self.as_full_string());
             return Err(ValidationError::default().set_message("silverfox can't infer the amount of a blank posting when other postings have mixed currencies").set_context(context));
         }
 
+        // without a blank posting to make up the difference, amounts have to add up to zero. if
+        // there are mixed currencies, their values are inferred from each other
+        if blank_amounts == 0 && !self.has_mixed_currencies() {
+            let mut sum = 0.0;
+            let mut total = 1.0;
+            for posting in self.postings.iter().filter(|p| p.is_classic()) {
+                if let Some(a) = posting.get_amount() {
+                    sum += a.mag;
+                    total += a.mag.abs();
+                }
+            }
+
+            // leave some room for rounding errors
+            if sum.abs() > total * 1e-8 {
+                return Err(ValidationError::default()
+                    .set_message("the amounts of this entry don't add up to zero")
+                    .set_context(context));
+            }
+        }
+
         Ok(())
     }
 
-- 
2.43.0


From f933e7a5b7448e2fddbda947f78e15a4a35d684e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:36 +0000
Subject: [PATCH 26/32] fix: an imported entry that can't be processed was
 still written to the journal

The journal couldn't be read anymore afterwards.
---
 src/ledger/mod.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index 6bbe63d..cd32c7c 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -189,19 +189,22 @@ impl Ledger {
         Ok(())
     }
 
-    /// Appends the entry to the file of the Ledger, then internally adds the Entry itself to the
-    /// Ledger.
+    /// Internally adds the Entry to the Ledger, then appends it to the file of the Ledger.
     fn append_entry(&mut self, entry: Entry) -> Result<(), SilverfoxError> {
         let mut file = match fs::OpenOptions::new().append(true).open(&self.file_path) {
             Ok(f) => f,
             Err(e) => return Err(SilverfoxError::file_error(&self.file_path, e)),
         };
 
-        if let Err(e) = write!(file, "\n{}", entry.as_parsable(&self.date_format)) {
+        // only write entries that can be processed, otherwise the journal couldn't be read anymore
+        let parsable = entry.as_parsable(&self.date_format);
+        self.add_entry(entry)?;
+
+        if let Err(e) = write!(file, "\n{parsable}") {
             return Err(SilverfoxError::Basic(format!("{e}")));
         }
 
-        self.add_entry(entry)
+        Ok(())
     }
 
     fn parse_account(&mut self, chunk: &str) -> Result<(), SilverfoxError> {
-- 
2.43.0


From 452bcf4dac4a131404c35913d6afc8884c405841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:17 +0000
Subject: [PATCH 27/32] fix: a future-dated entry made an envelope fill on
 every run of the same day

---
 src/envelope.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index 842975e..7764707 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -824,7 +824,11 @@ envelope. hopefully that all makes sense!", self.name, self.account);
             }
         }
 
-        self.last_transaction_date = self.last_transaction_date.max(date);
+        // entries that are dated in the future haven't affected the envelope yet. if they counted, an
+        // envelope already filled today wouldn't look like it was
+        if date <= Local::now().date_naive() {
+            self.last_transaction_date = self.last_transaction_date.max(date);
+        }
     }
 
     pub fn get_type(&self) -> &EnvelopeType {
-- 
2.43.0


From 198f132c1dd1b4a8e22b6ae832828d30491fc745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:11 +0000
Subject: [PATCH 28/32] fix: a date format that can't write dates made
 silverfox panic

---
 src/ledger/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index cd32c7c..d453acc 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -9,6 +9,7 @@ use chrono::{Local, NaiveDate};
 use std::collections::HashMap;
 use std::fmt::Debug;
 use std::fmt::Formatter;
+use std::fmt::Write as _;
 use std::fs;
 use std::io::prelude::*;
 use std::path::{Path, PathBuf};
@@ -140,6 +141,15 @@ impl Ledger {
 
     fn set_date_format(&mut self, date_format: Option<&str>) -> Result<(), SilverfoxError> {
         if let Some(d) = date_format {
+            // a format that can't be used to write a date would panic when one is displayed
+            let mut formatted = String::new();
+            if write!(formatted, "{}", NaiveDate::default().format(d)).is_err() {
+                return Err(SilverfoxError::from(ParseError {
+                    message: Some("this date format isn't valid".to_string()),
+                    context: Some(d.to_string()),
+                }));
+            }
+
             self.date_format = d.into();
             Ok(())
         } else {
-- 
2.43.0


From 8b5700d233be417c9cf4388f84f9f240c7c69a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:53 +0000
Subject: [PATCH 29/32] fix: a file that includes itself overflowed the stack

---
 src/ledger/mod.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index d453acc..7d54878 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -19,6 +19,7 @@ use register::Register;
 
 pub struct Ledger {
     file_path: PathBuf,
+    open_files: Vec<PathBuf>, // files being read, the innermost `include` last
     entries: Vec<Entry>,
     date_format: String, // default = "%Y/%m/%d"
     accounts: HashMap<String, Account>,
@@ -31,6 +32,7 @@ impl Ledger {
     fn new() -> Self {
         Ledger {
             file_path: PathBuf::new(),
+            open_files: Vec::new(),
             date_format: String::from("%Y/%m/%d"),
             entries: Vec::new(),
             accounts: HashMap::new(),
@@ -56,6 +58,16 @@ impl Ledger {
         let s = fs::read_to_string(file_path)
             .map_err(|e| SilverfoxError::file_error(PathBuf::from(file_path), e))?;
 
+        // a file that includes itself would never be done
+        let full_path = fs::canonicalize(file_path).unwrap_or_else(|_| PathBuf::from(file_path));
+        if self.open_files.contains(&full_path) {
+            return Err(SilverfoxError::from(ParseError {
+                message: Some("this file includes itself".to_string()),
+                context: Some(full_path.display().to_string()),
+            }));
+        }
+        self.open_files.push(full_path);
+
         // change directory to parent after reading to string, and before parsing
         let parent_dir = file_path.parent().unwrap();
 
@@ -68,6 +80,7 @@ impl Ledger {
         if let Ok(d) = previous_dir {
             std::env::set_current_dir(d).unwrap_or(());
         }
+        self.open_files.pop();
 
         result
     }
-- 
2.43.0


From 7a605130fecdef96d31172b6c27aef2e1b54bacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:17 +0000
Subject: [PATCH 30/32] fix: entries written with padded dates (%e) couldn't be
 read back

---
 src/entry.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/entry.rs b/src/entry.rs
index b2b814c..a8ca935 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -539,7 +539,9 @@ currency's worth in your native currency.").set_context(&self.as_full_string());
     }
 
     pub fn as_parsable(&self, date_format: &str) -> String {
-        let date = self.date.format(date_format);
+        // a line that starts with whitespace isn't the start of an entry
+        let date = self.date.format(date_format).to_string();
+        let date = date.trim_start();
 
         let mut s = String::new();
 
-- 
2.43.0


From 4783c50ef562c9a2c98d63b02776fdb87a4be451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:18 +0000
Subject: [PATCH 31/32] fix: importing could write entries that can't be read
 back

---
 src/ledger/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index 7d54878..96a0a07 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -219,9 +219,10 @@ impl Ledger {
             Err(e) => return Err(SilverfoxError::file_error(&self.file_path, e)),
         };
 
-        // only write entries that can be processed, otherwise the journal couldn't be read anymore
+        // process the entry like it will be read from the journal, and only write it if that works,
+        // otherwise the journal couldn't be read anymore
         let parsable = entry.as_parsable(&self.date_format);
-        self.add_entry(entry)?;
+        self.add_from_str(&parsable)?;
 
         if let Err(e) = write!(file, "\n{parsable}") {
             return Err(SilverfoxError::Basic(format!("{e}")));
-- 
2.43.0


From f3d7379ada45b5bd09f710d37861b628c70b4c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:46 +0000
Subject: [PATCH 32/32] fix: a rules file that includes itself overflowed the
 stack

---
 src/importer.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/importer.rs b/src/importer.rs
index b456a59..2256021 100644
--- a/src/importer.rs
+++ b/src/importer.rs
@@ -92,6 +92,7 @@ struct Rules {
     date_str: String,
     decimal_symbol: char,
     fields: LinkedList<String>,
+    open_files: Vec<PathBuf>, // files being included, the innermost last
     payee: String,
     skip: i32,
     status: String,
@@ -112,6 +113,7 @@ impl Default for Rules {
             decimal_symbol: '.',
             description: String::from("%description%"),
             fields: Default::default(),
+            open_files: Default::default(),
             payee: String::new(),
             skip: 1,
             status: String::from("~"),
@@ -134,7 +136,20 @@ impl Rules {
         let s = fs::read_to_string(rules_file)
             .map_err(|e| SilverfoxError::file_error(rules_file, e))?;
 
-        self.add_from_str(&s)
+        // a file that includes itself would never be done
+        let full_path = fs::canonicalize(rules_file).unwrap_or_else(|_| PathBuf::from(rules_file));
+        if self.open_files.contains(&full_path) {
+            return Err(SilverfoxError::from(ParseError {
+                message: Some("this file includes itself".to_string()),
+                context: Some(full_path.display().to_string()),
+            }));
+        }
+
+        self.open_files.push(full_path);
+        let result = self.add_from_str(&s);
+        self.open_files.pop();
+
+        result
     }
 
     fn add_from_str(&mut self, s: &str) -> Result<(), SilverfoxError> {
-- 
2.43.0

