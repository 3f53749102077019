From 092f274128939327f7b0d4c8fe26a886db979751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:53 +0000
Subject: [PATCH 01/21] fix: Defense::visitor_threshold returns the level's
 threshold, not its difficulty

---
 src/defense.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/defense.rs b/src/defense.rs
index fd65df0..6d6e8c0 100644
--- a/src/defense.rs
+++ b/src/defense.rs
@@ -218,7 +218,7 @@ impl Defense {
 
     /// Get current level's  visitor threshold
     pub fn visitor_threshold(&self) -> u32 {
-        self.levels[self.current_visitor_threshold].difficulty_factor
+        self.levels[self.current_visitor_threshold].visitor_threshold
     }
 }
 
-- 
2.43.0


From a8b2a05e4efc9c4e39a27df87957e35270fc61bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:53 +0000
Subject: [PATCH 02/21] fix: saturate the visitor count instead of overflowing
 it

---
 src/mcaptcha.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mcaptcha.rs b/src/mcaptcha.rs
index afff229..2dc73de 100644
--- a/src/mcaptcha.rs
+++ b/src/mcaptcha.rs
@@ -91,7 +91,7 @@ impl MCaptcha {
     /// increments the visitor count by one
     #[inline]
     pub fn add_visitor(&mut self) {
-        self.visitor_threshold += 1;
+        self.visitor_threshold = self.visitor_threshold.saturating_add(1);
         let current_level = self.defense.current_level();
         if self.visitor_threshold > current_level.visitor_threshold {
             self.defense.tighten_up();
-- 
2.43.0


From 76a3118782adc677a35fbfd86d773f66245695d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:53 +0000
Subject: [PATCH 03/21] fix: don't leave a defense level while traffic still
 exceeds the level below

---
 src/defense.rs  | 7 +++++++
 src/mcaptcha.rs | 8 ++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/defense.rs b/src/defense.rs
index 6d6e8c0..756bfcd 100644
--- a/src/defense.rs
+++ b/src/defense.rs
@@ -216,6 +216,13 @@ impl Defense {
         &self.levels[self.current_visitor_threshold]
     }
 
+    /// Get the level below the current level, if there is one
+    pub fn previous_level(&self) -> Option<&Level> {
+        self.current_visitor_threshold
+            .checked_sub(1)
+            .and_then(|i| self.levels.get(i))
+    }
+
     /// Get current level's  visitor threshold
     pub fn visitor_threshold(&self) -> u32 {
         self.levels[self.current_visitor_threshold].visitor_threshold
diff --git a/src/mcaptcha.rs b/src/mcaptcha.rs
index 2dc73de..7c8b223 100644
--- a/src/mcaptcha.rs
+++ b/src/mcaptcha.rs
@@ -95,8 +95,12 @@ impl MCaptcha {
         let current_level = self.defense.current_level();
         if self.visitor_threshold > current_level.visitor_threshold {
             self.defense.tighten_up();
-        } else {
-            self.defense.loosen_up();
+        } else if let Some(previous_level) = self.defense.previous_level() {
+            // a level is left only when the traffic is back within the limit of
+            // the level below it
+            if self.visitor_threshold <= previous_level.visitor_threshold {
+                self.defense.loosen_up();
+            }
         }
     }
 
-- 
2.43.0


From 7eb1b0a345ab7cd053bd4e548462d66246d7dd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:53 +0000
Subject: [PATCH 04/21] fix: release the visitors a counter is started with

---
 src/master/embedded/counter.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/master/embedded/counter.rs b/src/master/embedded/counter.rs
index f5a2ed3..6fd6f0d 100644
--- a/src/master/embedded/counter.rs
+++ b/src/master/embedded/counter.rs
@@ -101,6 +101,21 @@ impl From<MCaptcha> for Counter {
 }
 impl Actor for Counter {
     type Context = Context<Self>;
+
+    fn started(&mut self, ctx: &mut Self::Context) {
+        // visitors that were counted before the counter was started
+        let count = self.0.get_visitors();
+        if count > 0 {
+            let addr = ctx.address();
+            let duration: Duration = Duration::new(self.0.get_duration(), 0);
+            let wait_for = async move {
+                sleep(duration).await;
+                addr.send(BulkDecrement(count)).await.unwrap();
+            }
+            .into_actor(self);
+            ctx.spawn(wait_for);
+        }
+    }
 }
 
 /// Message to decrement the visitor count
-- 
2.43.0


From 2261b701380df05a0364f709d8d1f40ad2825e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:53 +0000
Subject: [PATCH 05/21] fix: clean up survives counters that are removed while
 it runs

---
 src/master/embedded/master.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/master/embedded/master.rs b/src/master/embedded/master.rs
index 1a34183..814fa93 100644
--- a/src/master/embedded/master.rs
+++ b/src/master/embedded/master.rs
@@ -171,10 +171,14 @@ impl Handler<CleanUp> for Master {
         info!("init master actor cleanup up");
         let task = async move {
             for (id, (new, addr)) in sites.iter() {
-                let visitor_count = addr.send(GetCurrentVisitorCount).await.unwrap();
+                let visitor_count = match addr.send(GetCurrentVisitorCount).await {
+                    Ok(visitor_count) => visitor_count,
+                    // the counter was removed while the clean up was going on
+                    Err(_) => continue,
+                };
                 println!("{}", visitor_count);
                 if visitor_count == 0 && new.is_some() {
-                    addr.send(Stop).await.unwrap();
+                    let _ = addr.send(Stop).await;
                     master.send(RemoveCaptcha(id.to_owned())).await.unwrap();
                     println!("cleaned up");
                 }
-- 
2.43.0


From 8fff28b35852c4663a03c39d6f9a59aea96bbea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:53 +0000
Subject: [PATCH 06/21] fix: send exactly one verdict per proof so that a
 runner never blocks on a full channel

---
 src/pow.rs | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/src/pow.rs b/src/pow.rs
index bf4839d..5d7e07b 100644
--- a/src/pow.rs
+++ b/src/pow.rs
@@ -96,22 +96,13 @@ impl QueuedWork {
         )
     }
     fn validate(&self) {
-        if !self
+        // exactly one verdict per job: the channel must never fill up
+        let verdict = self
             .pow
             .is_sufficient_difficulty(&self.work, self.difficulty_factor)
-        {
-            if let Err(e) = self.tx.send(false) {
-                debug!("[ERROR] unable to send work result: {e}");
-            }
-        }
-
-        if !self.pow.is_valid_proof(&self.work, &self.string) {
-            if let Err(e) = self.tx.send(false) {
-                debug!("[ERROR] unable to send work result: {e}");
-            }
-        }
+            && self.pow.is_valid_proof(&self.work, &self.string);
 
-        if let Err(e) = self.tx.send(true) {
+        if let Err(e) = self.tx.send(verdict) {
             debug!("[ERROR] unable to send work result: {e}");
         }
     }
-- 
2.43.0


From dfcac1e7cb9563ee91c91d2be2146b6ad4770d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:53 +0000
Subject: [PATCH 07/21] fix: await the verdict instead of spinning on the
 executor thread

---
 src/pow.rs    | 10 +++++-----
 src/system.rs | 20 ++++----------------
 2 files changed, 9 insertions(+), 21 deletions(-)

diff --git a/src/pow.rs b/src/pow.rs
index 5d7e07b..af0c863 100644
--- a/src/pow.rs
+++ b/src/pow.rs
@@ -18,12 +18,12 @@
 //! PoW datatypes used in client-server interaction
 use std::sync::Arc;
 
-use crossbeam_channel::{self, Receiver, Sender};
 use log::debug;
 use mcaptcha_pow_sha256::Config;
 pub use mcaptcha_pow_sha256::ConfigBuilder;
 use mcaptcha_pow_sha256::PoW;
 use serde::{Deserialize, Serialize};
+use tokio::sync::mpsc::{unbounded_channel, UnboundedReceiver, UnboundedSender};
 
 use crate::queue::Runnable;
 
@@ -69,7 +69,7 @@ impl From<Work> for PoW<String> {
 
 #[derive(Debug)]
 pub struct QueuedWork {
-    tx: Sender<bool>,
+    tx: UnboundedSender<bool>,
     pow: Arc<Config>,
     work: PoW<String>,
     string: String,
@@ -82,8 +82,8 @@ impl QueuedWork {
         work: PoW<String>,
         string: String,
         difficulty_factor: u32,
-    ) -> (Self, Receiver<bool>) {
-        let (tx, rx) = crossbeam_channel::bounded(2);
+    ) -> (Self, UnboundedReceiver<bool>) {
+        let (tx, rx) = unbounded_channel();
         (
             Self {
                 tx,
@@ -96,7 +96,7 @@ impl QueuedWork {
         )
     }
     fn validate(&self) {
-        // exactly one verdict per job: the channel must never fill up
+        // exactly one verdict per job
         let verdict = self
             .pow
             .is_sufficient_difficulty(&self.work, self.difficulty_factor)
diff --git a/src/system.rs b/src/system.rs
index c5c27e9..0df17ac 100644
--- a/src/system.rs
+++ b/src/system.rs
@@ -127,8 +127,6 @@ where
 
     /// utility function to verify [Work]
     pub async fn verify_pow(&self, work: Work, ip: String) -> CaptchaResult<(String, u32)> {
-        use crossbeam_channel::TryRecvError;
-
         let string = work.string.clone();
         let msg = VerifyCaptchaResult {
             token: string.clone(),
@@ -152,26 +150,16 @@ where
 
         let res_difficulty_factor = cached_config.difficulty_factor;
 
-        let (queued_work, rx) = QueuedWork::new(
+        let (queued_work, mut rx) = QueuedWork::new(
             self.pow.clone(),
             pow,
             string,
             cached_config.difficulty_factor,
         );
         self.runners.add(ip, Box::new(queued_work)).await?;
-        loop {
-            match rx.try_recv() {
-                Err(TryRecvError::Empty) => continue,
-                Err(TryRecvError::Disconnected) => {
-                    return Err(CaptchaError::InsuffiencientDifficulty);
-                }
-                Ok(t) => {
-                    if !t {
-                        return Err(CaptchaError::InsuffiencientDifficulty);
-                    }
-                    break;
-                }
-            };
+        match rx.recv().await {
+            Some(true) => (),
+            _ => return Err(CaptchaError::InsuffiencientDifficulty),
         }
 
         //        if !self
-- 
2.43.0


From 37a6103562160c0b9ddbbda40e091a8630a616ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:09 +0000
Subject: [PATCH 08/21] fix: report an invalid proof as InvalidPoW

---
 src/pow.rs    | 15 +++++++++++----
 src/system.rs |  4 ++--
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/pow.rs b/src/pow.rs
index af0c863..40e336e 100644
--- a/src/pow.rs
+++ b/src/pow.rs
@@ -25,6 +25,7 @@ use mcaptcha_pow_sha256::PoW;
 use serde::{Deserialize, Serialize};
 use tokio::sync::mpsc::{unbounded_channel, UnboundedReceiver, UnboundedSender};
 
+use crate::errors::*;
 use crate::queue::Runnable;
 
 /// PoW requirement datatype that is be sent to clients for generating PoW
@@ -69,7 +70,7 @@ impl From<Work> for PoW<String> {
 
 #[derive(Debug)]
 pub struct QueuedWork {
-    tx: UnboundedSender<bool>,
+    tx: UnboundedSender<CaptchaResult<()>>,
     pow: Arc<Config>,
     work: PoW<String>,
     string: String,
@@ -82,7 +83,7 @@ impl QueuedWork {
         work: PoW<String>,
         string: String,
         difficulty_factor: u32,
-    ) -> (Self, UnboundedReceiver<bool>) {
+    ) -> (Self, UnboundedReceiver<CaptchaResult<()>>) {
         let (tx, rx) = unbounded_channel();
         (
             Self {
@@ -97,10 +98,16 @@ impl QueuedWork {
     }
     fn validate(&self) {
         // exactly one verdict per job
-        let verdict = self
+        let verdict = if !self
             .pow
             .is_sufficient_difficulty(&self.work, self.difficulty_factor)
-            && self.pow.is_valid_proof(&self.work, &self.string);
+        {
+            Err(CaptchaError::InsuffiencientDifficulty)
+        } else if !self.pow.is_valid_proof(&self.work, &self.string) {
+            Err(CaptchaError::InvalidPoW)
+        } else {
+            Ok(())
+        };
 
         if let Err(e) = self.tx.send(verdict) {
             debug!("[ERROR] unable to send work result: {e}");
diff --git a/src/system.rs b/src/system.rs
index 0df17ac..5cfc2d4 100644
--- a/src/system.rs
+++ b/src/system.rs
@@ -158,8 +158,8 @@ where
         );
         self.runners.add(ip, Box::new(queued_work)).await?;
         match rx.recv().await {
-            Some(true) => (),
-            _ => return Err(CaptchaError::InsuffiencientDifficulty),
+            Some(verdict) => verdict?,
+            None => return Err(CaptchaError::InsuffiencientDifficulty),
         }
 
         //        if !self
-- 
2.43.0


From 1f9de3306da4aba662780224e7153dd5a7bafea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:31 +0000
Subject: [PATCH 09/21] fix: report a failure to store a token instead of
 panicking

---
 src/redis/mcaptcha_redis.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/redis/mcaptcha_redis.rs b/src/redis/mcaptcha_redis.rs
index 238891c..73de996 100644
--- a/src/redis/mcaptcha_redis.rs
+++ b/src/redis/mcaptcha_redis.rs
@@ -207,21 +207,16 @@ impl MCaptchaRedisConnection {
 
     /// Add PoW Token object to Redis
     pub async fn add_token(&self, msg: &CacheResult) -> CaptchaResult<()> {
-        use redis::RedisResult;
         // mcaptcha:token:captcha::token
         let key = format!("mcaptcha:token:{}:{}", &msg.key, &msg.token);
-        let e: RedisResult<()> = self
-            .0
+        self.0
             .exec::<()>(redis::cmd("SET").arg(&[
                 &key,
                 &msg.key,
                 "EX",
                 msg.duration.to_string().as_str(),
             ]))
-            .await;
-        if let Err(e) = e {
-            panic!("{}", e);
-        }
+            .await?;
         Ok(())
     }
 
-- 
2.43.0


From cf06b69cf6e9aa157e45cb63ab2344725d18368e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:31 +0000
Subject: [PATCH 10/21] fix: report malformed replies of the redis module
 instead of panicking

---
 src/redis/mcaptcha_redis.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/redis/mcaptcha_redis.rs b/src/redis/mcaptcha_redis.rs
index 73de996..184961c 100644
--- a/src/redis/mcaptcha_redis.rs
+++ b/src/redis/mcaptcha_redis.rs
@@ -117,7 +117,8 @@ impl MCaptchaRedisConnection {
     /// Add visitor
     pub async fn add_visitor(&self, msg: AddVisitor) -> CaptchaResult<Option<AddVisitorResult>> {
         let res: String = self.0.exec(redis::cmd(ADD_VISITOR).arg(&[msg.0])).await?;
-        let res: AddVisitorResult = serde_json::from_str(&res).unwrap();
+        let res: AddVisitorResult =
+            serde_json::from_str(&res).map_err(|_| CaptchaError::MCaptchaRedisModuleError)?;
         Ok(Some(res))
     }
 
@@ -188,7 +189,7 @@ impl MCaptchaRedisConnection {
             .0
             .exec(redis::cmd(GET_CHALLENGE).arg(&[&msg.key, &msg.token]))
             .await?;
-        Ok(serde_json::from_str(&challege).unwrap())
+        serde_json::from_str(&challege).map_err(|_| CaptchaError::MCaptchaRedisModuleError)
     }
 
     /// Delete PoW Challenge object from Redis
-- 
2.43.0


From 1f5caa32ca3f6a6e5cae05fba4826b9cf74bc24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:31 +0000
Subject: [PATCH 11/21] fix: report redis errors during the module check
 instead of panicking

---
 src/redis/mcaptcha_redis.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/redis/mcaptcha_redis.rs b/src/redis/mcaptcha_redis.rs
index 184961c..c0c4ad0 100644
--- a/src/redis/mcaptcha_redis.rs
+++ b/src/redis/mcaptcha_redis.rs
@@ -69,7 +69,7 @@ impl MCaptchaRedis {
 
 impl MCaptchaRedisConnection {
     async fn is_module_loaded(&self) -> CaptchaResult<()> {
-        if let Value::Array(s) = self.0.exec(redis::cmd("MODULE").arg("LIST")).await.unwrap() {
+        if let Value::Array(s) = self.0.exec(redis::cmd("MODULE").arg("LIST")).await? {
             if let Some(Value::Array(s)) = s.first() {
                 match s.iter().find(|i| format!("{:?}", i).contains(MODULE_NAME)) {
                     Some(_) => (),
@@ -96,8 +96,7 @@ impl MCaptchaRedisConnection {
             if let Value::Array(mut val) = self
                 .0
                 .exec(redis::cmd("COMMAND").arg(&["INFO", cmd]))
-                .await
-                .unwrap()
+                .await?
             {
                 if let Some(Value::Nil) = val.pop() {
                     return Err(CaptchaError::MCaptchaRediSModuleCommandNotFound(
-- 
2.43.0


From 8b0feb41e86d2ce09513d31ea2bd6aa52a922830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:31 +0000
Subject: [PATCH 12/21] fix: find the mCaptcha module among several loaded
 redis modules

---
 src/redis/mcaptcha_redis.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/redis/mcaptcha_redis.rs b/src/redis/mcaptcha_redis.rs
index c0c4ad0..1dcc6b6 100644
--- a/src/redis/mcaptcha_redis.rs
+++ b/src/redis/mcaptcha_redis.rs
@@ -70,12 +70,8 @@ impl MCaptchaRedis {
 impl MCaptchaRedisConnection {
     async fn is_module_loaded(&self) -> CaptchaResult<()> {
         if let Value::Array(s) = self.0.exec(redis::cmd("MODULE").arg("LIST")).await? {
-            if let Some(Value::Array(s)) = s.first() {
-                match s.iter().find(|i| format!("{:?}", i).contains(MODULE_NAME)) {
-                    Some(_) => (),
-                    None => return Err(CaptchaError::MCaptchaRedisModuleIsNotLoaded),
-                }
-            } else {
+            // other modules may be loaded too
+            if !s.iter().any(|i| format!("{:?}", i).contains(MODULE_NAME)) {
                 return Err(CaptchaError::MCaptchaRedisModuleIsNotLoaded);
             }
         }
-- 
2.43.0


From 3ee03589a27726beffb3ac4ff2fc5e69d8e62037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:31 +0000
Subject: [PATCH 13/21] fix: keep tokens of different captchas apart in redis

---
 src/redis/mcaptcha_redis.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/redis/mcaptcha_redis.rs b/src/redis/mcaptcha_redis.rs
index 1dcc6b6..84861df 100644
--- a/src/redis/mcaptcha_redis.rs
+++ b/src/redis/mcaptcha_redis.rs
@@ -47,6 +47,13 @@ const DELETE_CHALLENGE: &str = "MCAPTCHA_CACHE.DELETE_CHALLENGE";
 
 const MODULE_NAME: &str = "mcaptcha_cache";
 
+/// Redis key of a PoW token: mcaptcha:token:captcha length:captcha:token
+///
+/// With the length, no two pairs of captcha and token share a key even if they contain colons
+fn token_key(captcha: &str, token: &str) -> String {
+    format!("mcaptcha:token:{}:{}:{}", captcha.len(), captcha, token)
+}
+
 impl MCaptchaRedis {
     /// Get new [MCaptchaRedis]. Use this when executing commands that are
     /// only supported by mCaptcha Redis module. Internally, when object
@@ -203,8 +210,7 @@ impl MCaptchaRedisConnection {
 
     /// Add PoW Token object to Redis
     pub async fn add_token(&self, msg: &CacheResult) -> CaptchaResult<()> {
-        // mcaptcha:token:captcha::token
-        let key = format!("mcaptcha:token:{}:{}", &msg.key, &msg.token);
+        let key = token_key(&msg.key, &msg.token);
         self.0
             .exec::<()>(redis::cmd("SET").arg(&[
                 &key,
@@ -219,8 +225,7 @@ impl MCaptchaRedisConnection {
     /// Get PoW Token object to Redis
     pub async fn get_token(&self, msg: &VerifyCaptchaResult) -> CaptchaResult<bool> {
         //use redis::RedisResult;
-        // mcaptcha:token:captcha::token
-        let key = format!("mcaptcha:token:{}:{}", &msg.key, &msg.token);
+        let key = token_key(&msg.key, &msg.token);
         let res = self.0.exec(redis::cmd("DEL").arg(&[&key])).await?;
         match res {
             1 => Ok(true),
@@ -232,8 +237,7 @@ impl MCaptchaRedisConnection {
     /// Delete PoW Token object from Redis
     pub async fn delete_token(&self, msg: &VerifyCaptchaResult) -> CaptchaResult<()> {
         //use redis::RedisResult;
-        // mcaptcha:token:captcha::token
-        let key = format!("mcaptcha:token:{}:{}", &msg.key, &msg.token);
+        let key = token_key(&msg.key, &msg.token);
         self.0.exec::<()>(redis::cmd("DEL").arg(&[&key])).await?;
         Ok(())
     }
-- 
2.43.0


From 613c926f67331e9878f63d03bd862f378fc03cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:50 +0000
Subject: [PATCH 14/21] fix: the redis cache survives requesters that don't
 wait for the reply

---
 src/cache/redis.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cache/redis.rs b/src/cache/redis.rs
index c2c6fb8..568a2ec 100644
--- a/src/cache/redis.rs
+++ b/src/cache/redis.rs
@@ -57,7 +57,7 @@ impl Handler<CachePoW> for RedisCache {
             };
 
             let res = con.add_challenge(&msg.key, &payload).await;
-            tx.send(res).unwrap();
+            let _ = tx.send(res);
         }
         .into_actor(self);
         ctx.wait(fut);
@@ -86,7 +86,7 @@ impl Handler<RetrivePoW> for RedisCache {
                 }
             };
 
-            tx.send(r).unwrap();
+            let _ = tx.send(r);
         }
         .into_actor(self);
         ctx.wait(fut);
@@ -103,7 +103,7 @@ impl Handler<CacheResult> for RedisCache {
         let con = self.0.get_client();
         let fut = async move {
             let r = con.add_token(&msg).await;
-            tx.send(r).unwrap();
+            let _ = tx.send(r);
         }
         .into_actor(self);
         ctx.wait(fut);
@@ -120,7 +120,7 @@ impl Handler<VerifyCaptchaResult> for RedisCache {
         let con = self.0.get_client();
         let fut = async move {
             let r = con.get_token(&msg).await;
-            tx.send(r).unwrap();
+            let _ = tx.send(r);
         }
         .into_actor(self);
         ctx.wait(fut);
-- 
2.43.0


From 4ced1930dbfd72a900b3a452f5df14e475345203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:21 +0000
Subject: [PATCH 15/21] fix: drop drained IP queues, so that no job is skipped
 and a full queue recovers

---
 src/queue.rs | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/src/queue.rs b/src/queue.rs
index 918eb0c..37df7a9 100644
--- a/src/queue.rs
+++ b/src/queue.rs
@@ -90,13 +90,12 @@ enum InnerManagerMessage {
 }
 
 type InnerManagerQueue = HashMap<Rc<String>, VecDeque<Box<dyn Runnable>>>;
-type InnerManagerIP = Vec<Rc<String>>;
+type InnerManagerIP = VecDeque<Rc<String>>;
 
 struct InnerManager {
     queues: InnerManagerQueue,
     runners: HashMap<usize, RunnerThread>,
     ips: InnerManagerIP,
-    currnet_index: usize,
     queue_length: usize,
 }
 
@@ -116,18 +115,17 @@ impl Drop for InnerManager {
 impl InnerManager {
     fn dispatch_to(&mut self, name: usize) {
         if let Some(r) = self.runners.get(&name) {
-            let ip_vec_len = { self.ips.len() };
-
-            if self.currnet_index < ip_vec_len - 1 {
-                self.currnet_index += 1
-            } else {
-                self.currnet_index = 0;
-            }
-
-            let ip = self.ips.get(self.currnet_index).unwrap();
-            let ip_queue = self.queues.get_mut(ip).unwrap();
-            if let Some(work) = ip_queue.pop_front() {
-                r.tx.send(Message::Prove(work)).unwrap();
+            // only IPs with waiting jobs are in rotation, the one at the front is next
+            if let Some(ip) = self.ips.pop_front() {
+                let ip_queue = self.queues.get_mut(&ip).unwrap();
+                if let Some(work) = ip_queue.pop_front() {
+                    r.tx.send(Message::Prove(work)).unwrap();
+                }
+                if ip_queue.is_empty() {
+                    self.queues.remove(&ip);
+                } else {
+                    self.ips.push_back(ip);
+                }
             }
         }
     }
@@ -148,12 +146,11 @@ impl InnerManager {
             runners.insert(name, RunnerThread::spawn(name, tx.clone()));
         }
         let queues = HashMap::default();
-        let ips = Vec::default();
+        let ips = VecDeque::default();
         InnerManager {
             queues,
             runners,
             ips,
-            currnet_index: 0,
             queue_length,
         }
     }
@@ -172,7 +169,7 @@ impl InnerManager {
         queue.push_back(job);
         let ip = Rc::new(ip);
         self.queues.insert(ip.clone(), queue);
-        self.ips.push(ip);
+        self.ips.push_back(ip);
         self.dispatch();
         Ok(())
     }
-- 
2.43.0


From 08f9271199d924eccd055af8d9383faa504dd244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:22 +0000
Subject: [PATCH 16/21] fix: hand work to idle runners only, so that no IP's
 backlog blocks another's job

---
 src/queue.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/queue.rs b/src/queue.rs
index 37df7a9..567642f 100644
--- a/src/queue.rs
+++ b/src/queue.rs
@@ -96,6 +96,8 @@ struct InnerManager {
     queues: InnerManagerQueue,
     runners: HashMap<usize, RunnerThread>,
     ips: InnerManagerIP,
+    // runners that aren't working on a job
+    idle: VecDeque<usize>,
     queue_length: usize,
 }
 
@@ -126,12 +128,15 @@ impl InnerManager {
                 } else {
                     self.ips.push_back(ip);
                 }
+            } else {
+                self.idle.push_back(name);
             }
         }
     }
 
+    // hands work to an idle runner; a busy runner asks for work when it is done
     fn dispatch(&mut self) {
-        for name in 0..self.runners.len() {
+        if let Some(name) = self.idle.pop_front() {
             if !self.runners.contains_key(&name) {
                 panic!("unable to find thread: {name}");
             } else {
@@ -151,6 +156,7 @@ impl InnerManager {
             queues,
             runners,
             ips,
+            idle: (0..workers).collect(),
             queue_length,
         }
     }
-- 
2.43.0


From 0c3bf5d1e114c424b70dc2c7b9e683226cf6b04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:47 +0000
Subject: [PATCH 17/21] fix: answer an import of internal data only once the
 data is in place

---
 src/master/embedded/master.rs | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/src/master/embedded/master.rs b/src/master/embedded/master.rs
index 814fa93..769efe3 100644
--- a/src/master/embedded/master.rs
+++ b/src/master/embedded/master.rs
@@ -268,26 +268,17 @@ impl Handler<GetInternalData> for Master {
 impl Handler<SetInternalData> for Master {
     type Result = MessageResult<SetInternalData>;
 
-    fn handle(&mut self, mut m: SetInternalData, ctx: &mut Self::Context) -> Self::Result {
+    fn handle(&mut self, mut m: SetInternalData, _ctx: &mut Self::Context) -> Self::Result {
         let (tx, rx) = channel();
         for (name, mcaptcha) in m.mcaptcha.drain() {
-            let addr = self.get_site(&name);
-            let master = ctx.address();
-            let fut = async move {
-                match addr {
-                    None => {
-                        master.send(AddSite { id: name, mcaptcha }).await.unwrap();
-                    }
-                    Some(addr) => {
-                        let _ = addr.send(super::counter::SetInternalData(mcaptcha)).await;
-                        // best effort basis
-                        //let err: CaptchaError = e.into();
-                        //let _ = tx.send(Err(err));
-                    }
+            match self.get_site(&name) {
+                None => {
+                    let counter: Counter = mcaptcha.into();
+                    self.add_site(counter.start(), name);
                 }
+                // best effort basis
+                Some(addr) => addr.do_send(super::counter::SetInternalData(mcaptcha)),
             }
-            .into_actor(self);
-            ctx.spawn(fut);
         }
 
         let _ = tx.send(Ok(()));
-- 
2.43.0


From 62135d9de9b1bdb918e4721606b0667f70e4fd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:35 +0000
Subject: [PATCH 18/21] fix: an unexpected reply to the module or command probe
 means the module is missing

---
 src/redis/mcaptcha_redis.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/redis/mcaptcha_redis.rs b/src/redis/mcaptcha_redis.rs
index 84861df..0d9a059 100644
--- a/src/redis/mcaptcha_redis.rs
+++ b/src/redis/mcaptcha_redis.rs
@@ -76,11 +76,13 @@ impl MCaptchaRedis {
 
 impl MCaptchaRedisConnection {
     async fn is_module_loaded(&self) -> CaptchaResult<()> {
-        if let Value::Array(s) = self.0.exec(redis::cmd("MODULE").arg("LIST")).await? {
+        let loaded = match self.0.exec(redis::cmd("MODULE").arg("LIST")).await? {
             // other modules may be loaded too
-            if !s.iter().any(|i| format!("{:?}", i).contains(MODULE_NAME)) {
-                return Err(CaptchaError::MCaptchaRedisModuleIsNotLoaded);
-            }
+            Value::Array(s) => s.iter().any(|i| format!("{:?}", i).contains(MODULE_NAME)),
+            _ => false,
+        };
+        if !loaded {
+            return Err(CaptchaError::MCaptchaRedisModuleIsNotLoaded);
         }
 
         let commands = vec![
@@ -96,17 +98,19 @@ impl MCaptchaRedisConnection {
         ];
 
         for cmd in commands.iter() {
-            if let Value::Array(mut val) = self
+            let present = match self
                 .0
                 .exec(redis::cmd("COMMAND").arg(&["INFO", cmd]))
                 .await?
             {
-                if let Some(Value::Nil) = val.pop() {
-                    return Err(CaptchaError::MCaptchaRediSModuleCommandNotFound(
-                        cmd.to_string(),
-                    ));
-                };
+                Value::Array(mut val) => !matches!(val.pop(), None | Some(Value::Nil)),
+                _ => false,
             };
+            if !present {
+                return Err(CaptchaError::MCaptchaRediSModuleCommandNotFound(
+                    cmd.to_string(),
+                ));
+            }
         }
         Ok(())
     }
-- 
2.43.0


From afa0fa59602187692069f017ad83f9f17830f316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:10 +0000
Subject: [PATCH 19/21] fix: report a failure to connect to redis instead of
 panicking

---
 src/redis/mod.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/redis/mod.rs b/src/redis/mod.rs
index 14727f0..2545deb 100644
--- a/src/redis/mod.rs
+++ b/src/redis/mod.rs
@@ -37,20 +37,24 @@ pub enum RedisConfig {
 }
 
 impl RedisConfig {
-    /// Create Redis connection
+    /// Create Redis connection. Panics if that fails
     pub async fn connect(&self) -> RedisClient {
-        match self {
+        self.try_connect().await.unwrap()
+    }
+
+    /// Create Redis connection
+    async fn try_connect(&self) -> CaptchaResult<RedisClient> {
+        let client = match self {
             Self::Single(url) => {
-                let client = ConnectionManager::new(Client::open(url.as_str()).unwrap())
-                    .await
-                    .unwrap();
+                let client = ConnectionManager::new(Client::open(url.as_str())?).await?;
                 RedisClient::Single(client)
             }
             Self::Cluster(nodes) => {
-                let cluster_client = ClusterClient::new(nodes.to_owned()).unwrap();
+                let cluster_client = ClusterClient::new(nodes.to_owned())?;
                 RedisClient::Cluster(cluster_client)
             }
-        }
+        };
+        Ok(client)
     }
 }
 
@@ -122,7 +126,7 @@ impl Redis {
     }
 
     async fn connect(redis: RedisConfig) -> CaptchaResult<(RedisClient, RedisConnection)> {
-        let redis = redis.connect().await;
+        let redis = redis.try_connect().await?;
         let client = match &redis {
             RedisClient::Single(c) => RedisConnection::Single(Rc::new(RefCell::new(c.clone()))),
             RedisClient::Cluster(c) => {
-- 
2.43.0


From c0e607c8474d946894fd87970e4620abb7dcb45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:47 +0000
Subject: [PATCH 20/21] fix: a proof for difficulty zero killed its worker

Difficulty zero (a site, challenge or Redis reply read from outside can
carry it) divides by zero inside the proof of work crate. The worker
thread died and jobs handed to it later were never answered.
---
 src/pow.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pow.rs b/src/pow.rs
index 40e336e..3b485cc 100644
--- a/src/pow.rs
+++ b/src/pow.rs
@@ -97,10 +97,12 @@ impl QueuedWork {
         )
     }
     fn validate(&self) {
+        // zero asks for as little work as one does, but can't be divided by
+        let difficulty_factor = self.difficulty_factor.max(1);
         // exactly one verdict per job
         let verdict = if !self
             .pow
-            .is_sufficient_difficulty(&self.work, self.difficulty_factor)
+            .is_sufficient_difficulty(&self.work, difficulty_factor)
         {
             Err(CaptchaError::InsuffiencientDifficulty)
         } else if !self.pow.is_valid_proof(&self.work, &self.string) {
-- 
2.43.0


From 999ddda1eba2ec7af38e6255edb72ab6494f682b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:33 +0000
Subject: [PATCH 21/21] fix: a site without duration was told that its
 difficulty factor is zero

---
 src/errors.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/errors.rs b/src/errors.rs
index 8ec0d34..1838b58 100644
--- a/src/errors.rs
+++ b/src/errors.rs
@@ -39,7 +39,7 @@ pub enum CaptchaError {
     DifficultyFactorZero,
 
     /// captcha cooldown duration must be greater than 0
-    #[display("difficulty factor must be greater than zero")]
+    #[display("duration must be greater than zero")]
     CaptchaDurationZero,
 
     /// Difficulty factor must be set
-- 
2.43.0

