From 032cdb3c5a8af29a142e86d19cd0d3b40f0d6de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:40 +0000
Subject: [PATCH 01/10] fix: tail free sampling of exactly two logits returned
 an error

---
 src/samplers/tail_free.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/samplers/tail_free.rs b/src/samplers/tail_free.rs
index 230c56a..7abcb95 100644
--- a/src/samplers/tail_free.rs
+++ b/src/samplers/tail_free.rs
@@ -54,7 +54,7 @@ impl Sampler for SampleTailFree {
 
         let Self { z, min_keep } = *self;
 
-        if z >= 1f32 || logits.len() < 2 {
+        if z >= 1f32 || logits.len() <= 2 {
             return Ok(logits);
         }
 
-- 
2.43.0


From e9f3aef64851f7ba72a4c03afa30c0480fda48b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:41 +0000
Subject: [PATCH 02/10] fix: locally typical sampling failed when a token's
 probability was zero

---
 src/samplers/locally_typical.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/samplers/locally_typical.rs b/src/samplers/locally_typical.rs
index df0ef2c..df970a1 100644
--- a/src/samplers/locally_typical.rs
+++ b/src/samplers/locally_typical.rs
@@ -67,8 +67,10 @@ impl Sampler for SampleLocallyTypical {
             ))
         })?;
 
+        // The limit of `p * ln(p)` for `p` going to 0 is 0.
         let ent = logits
             .iter()
+            .filter(|l| l.prob > 0f32)
             .fold(0f32, |ent, l| ent + -l.prob * l.prob.ln());
 
         let mut shifted = logits
-- 
2.43.0


From f27d7add73b088284a84972139109664c8e64612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:42 +0000
Subject: [PATCH 03/10] fix: mirostat 2 kept a single token when no token's
 surprise exceeded mu

---
 src/samplers/mirostat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/samplers/mirostat.rs b/src/samplers/mirostat.rs
index ae78bf2..764a625 100644
--- a/src/samplers/mirostat.rs
+++ b/src/samplers/mirostat.rs
@@ -326,7 +326,7 @@ impl Sampler for SampleMirostat2 {
             .iter()
             .enumerate()
             .find_map(|(idx, l)| (-l.prob.log2() > mu).then_some(idx))
-            .unwrap_or_default()
+            .unwrap_or(logits.len())
             .max(1);
         if new_size != logits.len() {
             logits.truncate(new_size);
-- 
2.43.0


From aa12f3efb70bd9807254782ba0326aa41cb3cec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:03 +0000
Subject: [PATCH 04/10] fix: an option whose key is a prefix of another
 option's key was unreachable

---
 src/configure/metadata.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/configure/metadata.rs b/src/configure/metadata.rs
index dfdf698..7016b18 100644
--- a/src/configure/metadata.rs
+++ b/src/configure/metadata.rs
@@ -71,6 +71,13 @@ impl<T> SamplerOptions<T> {
         key: &str,
     ) -> Result<(SamplerOptionMetadata, Option<usize>)> {
         let key = key.trim();
+        // An exact match is never ambiguous even if the key is also the prefix of another one.
+        if let Some((idx, (omd, acc))) =
+            self.iter().enumerate().find(|(_idx, (omd, _acc))| omd.key == key)
+        {
+            return Ok((omd.clone(), acc.is_some().then_some(idx)));
+        }
+
         let mut it = self.iter().enumerate().filter(|&(_idx, (omd, _acc))| omd.key
                 .starts_with(key)).map(|(idx, (omd, acc))| (omd.clone(), acc.is_some().then_some(idx)));
         let Some((optdef, optidx)) = it.next() else {
-- 
2.43.0


From 60d17a395336e75a0f900729a775c1b4935bf7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:04 +0000
Subject: [PATCH 05/10] fix: boxed and shared samplers did not forward
 sample_prepend

---
 src/configure/building.rs |  4 ++++
 src/types.rs              | 10 ++++++++++
 2 files changed, 14 insertions(+)

diff --git a/src/configure/building.rs b/src/configure/building.rs
index da45e69..5e5e987 100644
--- a/src/configure/building.rs
+++ b/src/configure/building.rs
@@ -40,6 +40,10 @@ where
 }
 
 impl<UI, F> Sampler for Box<dyn BuildableSampler<UI, F>> {
+    fn sample_prepend(&self, res: &mut dyn HasSamplerResources) {
+        (**self).sample_prepend(res)
+    }
+
     fn sampled_token_id(&self) -> Option<TID> {
         (**self).sampled_token_id()
     }
diff --git a/src/types.rs b/src/types.rs
index 69c3df6..0396812 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -315,6 +315,10 @@ pub trait Sampler: Debug + Send + Sync {
 }
 
 impl Sampler for Box<dyn Sampler> {
+    fn sample_prepend(&self, res: &mut dyn HasSamplerResources) {
+        (**self).sample_prepend(res)
+    }
+
     fn sampled_token_id(&self) -> Option<TID> {
         (**self).sampled_token_id()
     }
@@ -337,6 +341,12 @@ impl Sampler for Box<dyn Sampler> {
 }
 
 impl Sampler for Arc<Mutex<dyn Sampler>> {
+    fn sample_prepend(&self, res: &mut dyn HasSamplerResources) {
+        if let Ok(sampler) = self.lock() {
+            sampler.sample_prepend(res)
+        }
+    }
+
     fn sampled_token_id(&self) -> Option<TID> {
         self.lock().ok()?.sampled_token_id()
     }
-- 
2.43.0


From cc984aabdfc1e973d5b1a4882b749aeaf6ac15c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:28 +0000
Subject: [PATCH 06/10] fix: sequence repetition merged one more token than
 max_merge allows

---
 src/samplers/sequence_repetition.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/samplers/sequence_repetition.rs b/src/samplers/sequence_repetition.rs
index b97df01..9f290b8 100644
--- a/src/samplers/sequence_repetition.rs
+++ b/src/samplers/sequence_repetition.rs
@@ -189,7 +189,7 @@ fn fuzzy_match<T: PartialEq + std::fmt::Debug>(
             break;
         }
         tolerance -= 1;
-        window = merge_limit + 1;
+        window = merge_limit.max(1);
     }
 
     result
-- 
2.43.0


From 8977f7c420ce3d1d76f4eee6db600582ad8e3d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:29 +0000
Subject: [PATCH 07/10] fix: sequence repetition overflowed for a huge
 min_length

---
 src/samplers/sequence_repetition.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/samplers/sequence_repetition.rs b/src/samplers/sequence_repetition.rs
index 9f290b8..03cadd2 100644
--- a/src/samplers/sequence_repetition.rs
+++ b/src/samplers/sequence_repetition.rs
@@ -122,7 +122,7 @@ fn find_seqs<T: PartialEq + Copy + std::fmt::Debug>(
     max_merge: usize,
 ) -> Vec<SeqMatchResult<'_, T>> {
     let seqlen = seq.len();
-    if seqlen < min_len * 2 {
+    if seqlen < min_len.saturating_mul(2) {
         return Vec::default();
     }
 
@@ -220,7 +220,7 @@ impl Sampler for SampleSeqRepetition {
         let mut penalize: HashMap<TID, usize> = HashMap::with_capacity(64);
 
         res.with_last_tokens(&mut |orig_tokens| {
-            if orig_tokens.len() < min_length * 2 {
+            if orig_tokens.len() < min_length.saturating_mul(2) {
                 return;
             }
             let tokens = if last_n > orig_tokens.len() {
-- 
2.43.0


From 321a9ff0939ccd420e7a4210883b3eb72eed3618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:30 +0000
Subject: [PATCH 08/10] fix: a negative temperature left reversed logits
 flagged as sorted

---
 src/samplers/temperature.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/samplers/temperature.rs b/src/samplers/temperature.rs
index f2f1127..6e6b622 100644
--- a/src/samplers/temperature.rs
+++ b/src/samplers/temperature.rs
@@ -42,6 +42,10 @@ impl Sampler for SampleTemperature {
         if temp != 0f32 {
             logits.iter_mut().for_each(|l| l.logit /= temp);
             logits.set_softmax(false);
+            if temp < 0f32 {
+                // Dividing by a negative value reverses the order.
+                logits.set_sorted(false);
+            }
         }
         Ok(logits)
     }
-- 
2.43.0


From beb55c214e57144696549926801d3ffed9e72d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:31 +0000
Subject: [PATCH 09/10] fix: building top-k logits with a huge k panicked

---
 src/types.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/types.rs b/src/types.rs
index 0396812..0607164 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -164,13 +164,16 @@ impl Logits {
             return Ok(Self::default());
         }
 
+        let it = it.into_iter();
+        let capacity = k.min(it.size_hint().0);
+
         Ok(Logits {
             sorted: true,
             has_softmax: false,
             logits: (0u32..)
                 .zip(it)
                 .filter(|(_tid, logit)| logit.is_finite())
-                .fold(Vec::with_capacity(k), |mut logits, (tid, logit)| {
+                .fold(Vec::with_capacity(capacity), |mut logits, (tid, logit)| {
                     if logits.len() == k {
                         // The Vec is guaranteed not to be empty at this point.
                         if logit > unsafe { logits.last().unwrap_unchecked().logit } {
-- 
2.43.0


From d8cbd424e028ff9f39c088aa32ad83fabd5705b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:56 +0000
Subject: [PATCH 10/10] fix: mirostat 1 computed its cutoff with a garbled
 formula

---
 src/samplers/mirostat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/samplers/mirostat.rs b/src/samplers/mirostat.rs
index 764a625..0b3458f 100644
--- a/src/samplers/mirostat.rs
+++ b/src/samplers/mirostat.rs
@@ -143,7 +143,7 @@ impl Sampler for SampleMirostat1 {
         let s_hat = sum_ti_bi / sum_ti_sq;
         let epsilon_hat = s_hat - 1f32;
         let k =
-            (epsilon_hat * mu.powf(2f32) / 1f32 - n_vocab.powf(-epsilon_hat)).powf(1f32 / s_hat);
+            (epsilon_hat * mu.exp2() / (1f32 - n_vocab.powf(-epsilon_hat))).powf(1f32 / s_hat);
         logits.sample(res, &mut SampleTopK::new(k.as_(), 1))?;
 
         if let Some(tid) = self.rd_sampler.sample_token(res, logits)? {
-- 
2.43.0

