From baff7aabcc669e8582cd8f24454245c66e103f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:20 +0000
Subject: [PATCH 01/17] fix: Defense::visitor_threshold returned the difficulty
 factor

---
 src/defense.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/defense.rs b/src/defense.rs
index fd65df0..6d6e8c0 100644
--- a/src/defense.rs
+++ b/src/defense.rs
@@ -218,7 +218,7 @@ impl Defense {
 
     /// Get current level's  visitor threshold
     pub fn visitor_threshold(&self) -> u32 {
-        self.levels[self.current_visitor_threshold].difficulty_factor
+        self.levels[self.current_visitor_threshold].visitor_threshold
     }
 }
 
-- 
2.43.0


From 3cb0cee2cc9d0ec635853e98e2356bcf467be5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:20 +0000
Subject: [PATCH 02/17] fix: difficulty alternated between two levels while
 traffic was between their thresholds

---
 src/mcaptcha.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mcaptcha.rs b/src/mcaptcha.rs
index afff229..e51ba90 100644
--- a/src/mcaptcha.rs
+++ b/src/mcaptcha.rs
@@ -97,6 +97,10 @@ impl MCaptcha {
             self.defense.tighten_up();
         } else {
             self.defense.loosen_up();
+            // traffic is still over the lower level's threshold: stay
+            if self.visitor_threshold > self.defense.current_level().visitor_threshold {
+                self.defense.tighten_up();
+            }
         }
     }
 
-- 
2.43.0


From 6b9ce0ba45196e7e6a8626d6bbda2212fc42817c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:20 +0000
Subject: [PATCH 03/17] fix: runner blocked when a rejected work's verdict was
 not read

A rejected work sent up to three verdicts into a channel with room for two.
---
 src/pow.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pow.rs b/src/pow.rs
index bf4839d..ed51518 100644
--- a/src/pow.rs
+++ b/src/pow.rs
@@ -103,12 +103,14 @@ impl QueuedWork {
             if let Err(e) = self.tx.send(false) {
                 debug!("[ERROR] unable to send work result: {e}");
             }
+            return;
         }
 
         if !self.pow.is_valid_proof(&self.work, &self.string) {
             if let Err(e) = self.tx.send(false) {
                 debug!("[ERROR] unable to send work result: {e}");
             }
+            return;
         }
 
         if let Err(e) = self.tx.send(true) {
-- 
2.43.0


From 8811d49ed3cede4dc35bf5e63ff7853d0f0322e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:20 +0000
Subject: [PATCH 04/17] fix: scheduled work was stranded and IP queues were
 never released

A free runner only looked at one IP's queue, so work of other IPs was left
behind until more work was scheduled. IP queues were kept after they drained,
so that queue_length IPs were accepted during the lifetime of the process.
---
 src/queue.rs | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/src/queue.rs b/src/queue.rs
index 918eb0c..5eaa847 100644
--- a/src/queue.rs
+++ b/src/queue.rs
@@ -90,13 +90,12 @@ enum InnerManagerMessage {
 }
 
 type InnerManagerQueue = HashMap<Rc<String>, VecDeque<Box<dyn Runnable>>>;
-type InnerManagerIP = Vec<Rc<String>>;
+type InnerManagerIP = VecDeque<Rc<String>>;
 
 struct InnerManager {
     queues: InnerManagerQueue,
     runners: HashMap<usize, RunnerThread>,
     ips: InnerManagerIP,
-    currnet_index: usize,
     queue_length: usize,
 }
 
@@ -116,19 +115,20 @@ impl Drop for InnerManager {
 impl InnerManager {
     fn dispatch_to(&mut self, name: usize) {
         if let Some(r) = self.runners.get(&name) {
-            let ip_vec_len = { self.ips.len() };
-
-            if self.currnet_index < ip_vec_len - 1 {
-                self.currnet_index += 1
-            } else {
-                self.currnet_index = 0;
-            }
-
-            let ip = self.ips.get(self.currnet_index).unwrap();
-            let ip_queue = self.queues.get_mut(ip).unwrap();
+            // only IPs with pending work are kept, they take turns
+            let ip = match self.ips.pop_front() {
+                Some(ip) => ip,
+                None => return,
+            };
+            let ip_queue = self.queues.get_mut(&ip).unwrap();
             if let Some(work) = ip_queue.pop_front() {
                 r.tx.send(Message::Prove(work)).unwrap();
             }
+            if ip_queue.is_empty() {
+                self.queues.remove(&ip);
+            } else {
+                self.ips.push_back(ip);
+            }
         }
     }
 
@@ -148,12 +148,11 @@ impl InnerManager {
             runners.insert(name, RunnerThread::spawn(name, tx.clone()));
         }
         let queues = HashMap::default();
-        let ips = Vec::default();
+        let ips = VecDeque::default();
         InnerManager {
             queues,
             runners,
             ips,
-            currnet_index: 0,
             queue_length,
         }
     }
@@ -172,7 +171,7 @@ impl InnerManager {
         queue.push_back(job);
         let ip = Rc::new(ip);
         self.queues.insert(ip.clone(), queue);
-        self.ips.push(ip);
+        self.ips.push_back(ip);
         self.dispatch();
         Ok(())
     }
-- 
2.43.0


From 10a5ad19bd08eb0f4c09f9fa00843ae4ce27ceee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:20 +0000
Subject: [PATCH 05/17] fix: work was handed to busy runners

Work piled up behind the first runner while others were idle, and an IP with
many pending works was served before every other IP.
---
 src/queue.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/queue.rs b/src/queue.rs
index 5eaa847..d0f7b83 100644
--- a/src/queue.rs
+++ b/src/queue.rs
@@ -35,6 +35,7 @@ enum Message {
 struct RunnerThread {
     tx: Sender<Message>,
     thread: Option<JoinHandle<()>>,
+    busy: bool,
 }
 
 pub trait Runnable: Send + Sync {
@@ -46,7 +47,11 @@ impl RunnerThread {
         let (tx, rx) = crossbeam_channel::unbounded();
 
         let thread = Some(thread::spawn(move || Self::run(name, &rx, &tx_manager)));
-        Self { tx, thread }
+        Self {
+            tx,
+            thread,
+            busy: false,
+        }
     }
 
     fn run(name: usize, rx: &Receiver<Message>, tx_manager: &Sender<InnerManagerMessage>) {
@@ -114,7 +119,10 @@ impl Drop for InnerManager {
 
 impl InnerManager {
     fn dispatch_to(&mut self, name: usize) {
-        if let Some(r) = self.runners.get(&name) {
+        if let Some(r) = self.runners.get_mut(&name) {
+            if r.busy {
+                return;
+            }
             // only IPs with pending work are kept, they take turns
             let ip = match self.ips.pop_front() {
                 Some(ip) => ip,
@@ -123,6 +131,7 @@ impl InnerManager {
             let ip_queue = self.queues.get_mut(&ip).unwrap();
             if let Some(work) = ip_queue.pop_front() {
                 r.tx.send(Message::Prove(work)).unwrap();
+                r.busy = true;
             }
             if ip_queue.is_empty() {
                 self.queues.remove(&ip);
@@ -184,7 +193,12 @@ impl InnerManager {
                         drop(im);
                         break;
                     }
-                    InnerManagerMessage::Dispatch(name) => im.dispatch_to(name),
+                    InnerManagerMessage::Dispatch(name) => {
+                        if let Some(r) = im.runners.get_mut(&name) {
+                            r.busy = false;
+                        }
+                        im.dispatch_to(name)
+                    }
                     InnerManagerMessage::Schedule(job) => {
                         let res = im.schedule(job.ip, job.job);
                         let _ = job.tx.send(res);
-- 
2.43.0


From 63997905afab12a594bf6518990b9a919b896cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:36 +0000
Subject: [PATCH 06/17] fix: visitors restored into a new site never expired

---
 src/master/embedded/counter.rs | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/master/embedded/counter.rs b/src/master/embedded/counter.rs
index f5a2ed3..33b536d 100644
--- a/src/master/embedded/counter.rs
+++ b/src/master/embedded/counter.rs
@@ -101,6 +101,29 @@ impl From<MCaptcha> for Counter {
 }
 impl Actor for Counter {
     type Context = Context<Self>;
+
+    // visitors that are already counted when the actor starts must expire too
+    fn started(&mut self, ctx: &mut Self::Context) {
+        if self.0.get_visitors() > 0 {
+            self.expire_current_visitors(ctx);
+        }
+    }
+}
+
+impl Counter {
+    // decrement visitor count by current visitor count after captcha duration
+    fn expire_current_visitors(&mut self, ctx: &mut Context<Self>) {
+        let addr = ctx.address();
+        let duration: Duration = Duration::new(self.0.get_duration(), 0);
+        let count = self.0.get_visitors();
+        let wait_for = async move {
+            sleep(duration).await;
+            //delay_for(duration).await;
+            addr.send(BulkDecrement(count)).await.unwrap();
+        }
+        .into_actor(self);
+        ctx.spawn(wait_for);
+    }
 }
 
 /// Message to decrement the visitor count
@@ -202,17 +225,8 @@ impl Handler<SetInternalData> for Counter {
     type Result = MessageResult<SetInternalData>;
 
     fn handle(&mut self, d: SetInternalData, ctx: &mut Self::Context) -> Self::Result {
-        let addr = ctx.address();
         self.0 = d.0;
-        let duration: Duration = Duration::new(self.0.get_duration(), 0);
-        let count = self.0.get_visitors();
-        let wait_for = async move {
-            sleep(duration).await;
-            //delay_for(duration).await;
-            addr.send(BulkDecrement(count)).await.unwrap();
-        }
-        .into_actor(self);
-        ctx.spawn(wait_for);
+        self.expire_current_visitors(ctx);
 
         MessageResult(())
     }
-- 
2.43.0


From 310ecc6e4731613c7af181d22e820ed528bbb6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:01 +0000
Subject: [PATCH 07/17] fix: visitors discarded by SetInternalData were still
 decremented from the count

---
 src/master/embedded/counter.rs | 36 ++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/master/embedded/counter.rs b/src/master/embedded/counter.rs
index 33b536d..f3b766b 100644
--- a/src/master/embedded/counter.rs
+++ b/src/master/embedded/counter.rs
@@ -92,11 +92,16 @@ use crate::mcaptcha::MCaptcha;
 /// This struct represents the mCaptcha state and is used
 /// to configure leaky-bucket lifetime and manage defense
 #[derive(Clone, Serialize, Deserialize, Debug)]
-pub struct Counter(MCaptcha);
+#[serde(transparent)]
+pub struct Counter(
+    MCaptcha,
+    // changes when the visitors that timers were started for are replaced
+    #[serde(skip)] usize,
+);
 
 impl From<MCaptcha> for Counter {
     fn from(m: MCaptcha) -> Counter {
-        Counter(m)
+        Counter(m, 0)
     }
 }
 impl Actor for Counter {
@@ -113,15 +118,16 @@ impl Actor for Counter {
 impl Counter {
     // decrement visitor count by current visitor count after captcha duration
     fn expire_current_visitors(&mut self, ctx: &mut Context<Self>) {
-        let addr = ctx.address();
         let duration: Duration = Duration::new(self.0.get_duration(), 0);
         let count = self.0.get_visitors();
-        let wait_for = async move {
-            sleep(duration).await;
-            //delay_for(duration).await;
-            addr.send(BulkDecrement(count)).await.unwrap();
-        }
-        .into_actor(self);
+        let generation = self.1;
+        let wait_for = sleep(duration).into_actor(self).map(
+            move |_, act: &mut Self, ctx: &mut Context<Self>| {
+                if act.1 == generation {
+                    act.handle(BulkDecrement(count), ctx);
+                }
+            },
+        );
         ctx.spawn(wait_for);
     }
 }
@@ -129,12 +135,14 @@ impl Counter {
 /// Message to decrement the visitor count
 #[derive(Message)]
 #[rtype(result = "()")]
-struct DeleteVisitor;
+struct DeleteVisitor(usize);
 
 impl Handler<DeleteVisitor> for Counter {
     type Result = ();
-    fn handle(&mut self, _msg: DeleteVisitor, _ctx: &mut Self::Context) -> Self::Result {
-        self.0.decrement_visitor_by(1);
+    fn handle(&mut self, msg: DeleteVisitor, _ctx: &mut Self::Context) -> Self::Result {
+        if msg.0 == self.1 {
+            self.0.decrement_visitor_by(1);
+        }
     }
 }
 
@@ -152,10 +160,11 @@ impl Handler<AddVisitor> for Counter {
         //use actix::clock::delay_for;
 
         let duration: Duration = Duration::new(self.0.get_duration(), 0);
+        let generation = self.1;
         let wait_for = async move {
             sleep(duration).await;
             //delay_for(duration).await;
-            addr.send(DeleteVisitor).await.unwrap();
+            addr.send(DeleteVisitor(generation)).await.unwrap();
         }
         .into_actor(self);
         ctx.spawn(wait_for);
@@ -226,6 +235,7 @@ impl Handler<SetInternalData> for Counter {
 
     fn handle(&mut self, d: SetInternalData, ctx: &mut Self::Context) -> Self::Result {
         self.0 = d.0;
+        self.1 = self.1.wrapping_add(1);
         self.expire_current_visitors(ctx);
 
         MessageResult(())
-- 
2.43.0


From 783397e782c1dccb0705b2ea0598ae93de050518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:22 +0000
Subject: [PATCH 08/17] fix: cleanup raced with other messages to master

Master sends several messages to a counter while cleaning up. If the site was
removed in between, cleanup panicked and took master down. If it was renamed or
its name was registered again, the wrong site was removed, and the renamed site
was left with a stopped counter. A site that got a visitor in between was
removed regardless.
---
 src/master/embedded/counter.rs | 18 ++++++++++++++++++
 src/master/embedded/master.rs  | 30 +++++++++++++++++++++++-------
 2 files changed, 41 insertions(+), 7 deletions(-)

diff --git a/src/master/embedded/counter.rs b/src/master/embedded/counter.rs
index f3b766b..7d73d9e 100644
--- a/src/master/embedded/counter.rs
+++ b/src/master/embedded/counter.rs
@@ -200,6 +200,24 @@ impl Handler<Stop> for Counter {
     }
 }
 
+/// Message to stop [Counter] unless it has visitors.
+/// Returns true if [Counter] was stopped
+#[derive(Message)]
+#[rtype(result = "bool")]
+pub(crate) struct StopIfIdle;
+
+impl Handler<StopIfIdle> for Counter {
+    type Result = bool;
+
+    fn handle(&mut self, _: StopIfIdle, ctx: &mut Self::Context) -> Self::Result {
+        let idle = self.0.get_visitors() == 0;
+        if idle {
+            ctx.stop();
+        }
+        idle
+    }
+}
+
 /// Gets internal Captcha data
 #[derive(Message)]
 #[rtype(result = "MCaptcha")]
diff --git a/src/master/embedded/master.rs b/src/master/embedded/master.rs
index 1a34183..045d84c 100644
--- a/src/master/embedded/master.rs
+++ b/src/master/embedded/master.rs
@@ -32,7 +32,7 @@ use crate::master::messages::{
 };
 use crate::master::Master as MasterTrait;
 
-use super::counter::{GetCurrentVisitorCount, Stop};
+use super::counter::{Stop, StopIfIdle};
 
 /// This Actor manages the [Counter] actors.
 /// A service can have several [Counter] actors with
@@ -171,12 +171,14 @@ impl Handler<CleanUp> for Master {
         info!("init master actor cleanup up");
         let task = async move {
             for (id, (new, addr)) in sites.iter() {
-                let visitor_count = addr.send(GetCurrentVisitorCount).await.unwrap();
-                println!("{}", visitor_count);
-                if visitor_count == 0 && new.is_some() {
-                    addr.send(Stop).await.unwrap();
-                    master.send(RemoveCaptcha(id.to_owned())).await.unwrap();
-                    println!("cleaned up");
+                if new.is_none() {
+                    continue;
+                }
+                // Counter decides and stops in one go, as a visitor can arrive at any time.
+                // If it's gone already, only its entry is left to be removed
+                if addr.send(StopIfIdle).await.unwrap_or(true) {
+                    master.send(RemoveStopped(addr.clone())).await.unwrap();
+                    info!("cleaned up {id}");
                 }
             }
 
@@ -190,6 +192,20 @@ impl Handler<CleanUp> for Master {
     }
 }
 
+/// Message to remove a stopped [Counter] from master. The name it was registered with
+/// may have been changed or given to another [Counter] in the meantime
+#[derive(Message)]
+#[rtype(result = "()")]
+struct RemoveStopped(Addr<Counter>);
+
+impl Handler<RemoveStopped> for Master {
+    type Result = ();
+
+    fn handle(&mut self, m: RemoveStopped, _ctx: &mut Self::Context) -> Self::Result {
+        self.sites.retain(|_, (_, addr)| *addr != m.0);
+    }
+}
+
 impl Handler<RemoveCaptcha> for Master {
     type Result = MessageResult<RemoveCaptcha>;
 
-- 
2.43.0


From e9782c5510e8e19618094e310f71fd6fdbf85a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:40 +0000
Subject: [PATCH 09/17] hook: make the queue module public under
 cfg(libmcaptcha_verif)

---
 src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8b85500..8dc2612 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -197,8 +197,11 @@ pub mod cache;
 pub mod mcaptcha;
 #[cfg(feature = "full")]
 pub mod pow;
-#[cfg(feature = "full")]
+#[cfg(all(feature = "full", not(libmcaptcha_verif)))]
 mod queue;
+// verification builds (RUSTFLAGS="--cfg libmcaptcha_verif") drive the queue directly
+#[cfg(all(feature = "full", libmcaptcha_verif))]
+pub mod queue;
 #[cfg(feature = "full")]
 pub mod system;
 #[cfg(feature = "full")]
-- 
2.43.0


From a049b834273f389e0d6870df4d01d24029f6f73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:13 +0000
Subject: [PATCH 10/17] fix: SetInternalData was applied late, or not at all if
 a site was being cleaned up

---
 src/master/embedded/master.rs | 23 +++++------------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/src/master/embedded/master.rs b/src/master/embedded/master.rs
index 045d84c..23428aa 100644
--- a/src/master/embedded/master.rs
+++ b/src/master/embedded/master.rs
@@ -280,26 +280,13 @@ impl Handler<GetInternalData> for Master {
 impl Handler<SetInternalData> for Master {
     type Result = MessageResult<SetInternalData>;
 
-    fn handle(&mut self, mut m: SetInternalData, ctx: &mut Self::Context) -> Self::Result {
+    fn handle(&mut self, mut m: SetInternalData, _ctx: &mut Self::Context) -> Self::Result {
         let (tx, rx) = channel();
         for (name, mcaptcha) in m.mcaptcha.drain() {
-            let addr = self.get_site(&name);
-            let master = ctx.address();
-            let fut = async move {
-                match addr {
-                    None => {
-                        master.send(AddSite { id: name, mcaptcha }).await.unwrap();
-                    }
-                    Some(addr) => {
-                        let _ = addr.send(super::counter::SetInternalData(mcaptcha)).await;
-                        // best effort basis
-                        //let err: CaptchaError = e.into();
-                        //let _ = tx.send(Err(err));
-                    }
-                }
-            }
-            .into_actor(self);
-            ctx.spawn(fut);
+            // replaces the counter if there's one: it might be getting cleaned up
+            let read_val = self.sites.get(&name).map(|_| ());
+            let counter: Counter = mcaptcha.into();
+            self.sites.insert(name, (read_val, counter.start()));
         }
 
         let _ = tx.send(Ok(()));
-- 
2.43.0


From 887b1ad8e6ef94d0c0d7877ad7b1d85567ea9532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:30 +0000
Subject: [PATCH 11/17] fix: Redis cache crashed when a caller had stopped
 waiting for its reply

---
 src/cache/redis.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cache/redis.rs b/src/cache/redis.rs
index c2c6fb8..568a2ec 100644
--- a/src/cache/redis.rs
+++ b/src/cache/redis.rs
@@ -57,7 +57,7 @@ impl Handler<CachePoW> for RedisCache {
             };
 
             let res = con.add_challenge(&msg.key, &payload).await;
-            tx.send(res).unwrap();
+            let _ = tx.send(res);
         }
         .into_actor(self);
         ctx.wait(fut);
@@ -86,7 +86,7 @@ impl Handler<RetrivePoW> for RedisCache {
                 }
             };
 
-            tx.send(r).unwrap();
+            let _ = tx.send(r);
         }
         .into_actor(self);
         ctx.wait(fut);
@@ -103,7 +103,7 @@ impl Handler<CacheResult> for RedisCache {
         let con = self.0.get_client();
         let fut = async move {
             let r = con.add_token(&msg).await;
-            tx.send(r).unwrap();
+            let _ = tx.send(r);
         }
         .into_actor(self);
         ctx.wait(fut);
@@ -120,7 +120,7 @@ impl Handler<VerifyCaptchaResult> for RedisCache {
         let con = self.0.get_client();
         let fut = async move {
             let r = con.get_token(&msg).await;
-            tx.send(r).unwrap();
+            let _ = tx.send(r);
         }
         .into_actor(self);
         ctx.wait(fut);
-- 
2.43.0


From a2ca8db691adb1bacc3ee1f1f1ecd6b7f2d8a059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:30 +0000
Subject: [PATCH 12/17] fix: Redis cache crashed when a token couldn't be
 stored

---
 src/redis/mcaptcha_redis.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/redis/mcaptcha_redis.rs b/src/redis/mcaptcha_redis.rs
index 238891c..73de996 100644
--- a/src/redis/mcaptcha_redis.rs
+++ b/src/redis/mcaptcha_redis.rs
@@ -207,21 +207,16 @@ impl MCaptchaRedisConnection {
 
     /// Add PoW Token object to Redis
     pub async fn add_token(&self, msg: &CacheResult) -> CaptchaResult<()> {
-        use redis::RedisResult;
         // mcaptcha:token:captcha::token
         let key = format!("mcaptcha:token:{}:{}", &msg.key, &msg.token);
-        let e: RedisResult<()> = self
-            .0
+        self.0
             .exec::<()>(redis::cmd("SET").arg(&[
                 &key,
                 &msg.key,
                 "EX",
                 msg.duration.to_string().as_str(),
             ]))
-            .await;
-        if let Err(e) = e {
-            panic!("{}", e);
-        }
+            .await?;
         Ok(())
     }
 
-- 
2.43.0


From d88a17a56970a2e1b60d093a95ffaf8e09f89673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:30 +0000
Subject: [PATCH 13/17] fix: malformed replies of the Redis module crashed
 registry and cache

---
 src/redis/mcaptcha_redis.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/redis/mcaptcha_redis.rs b/src/redis/mcaptcha_redis.rs
index 73de996..184961c 100644
--- a/src/redis/mcaptcha_redis.rs
+++ b/src/redis/mcaptcha_redis.rs
@@ -117,7 +117,8 @@ impl MCaptchaRedisConnection {
     /// Add visitor
     pub async fn add_visitor(&self, msg: AddVisitor) -> CaptchaResult<Option<AddVisitorResult>> {
         let res: String = self.0.exec(redis::cmd(ADD_VISITOR).arg(&[msg.0])).await?;
-        let res: AddVisitorResult = serde_json::from_str(&res).unwrap();
+        let res: AddVisitorResult =
+            serde_json::from_str(&res).map_err(|_| CaptchaError::MCaptchaRedisModuleError)?;
         Ok(Some(res))
     }
 
@@ -188,7 +189,7 @@ impl MCaptchaRedisConnection {
             .0
             .exec(redis::cmd(GET_CHALLENGE).arg(&[&msg.key, &msg.token]))
             .await?;
-        Ok(serde_json::from_str(&challege).unwrap())
+        serde_json::from_str(&challege).map_err(|_| CaptchaError::MCaptchaRedisModuleError)
     }
 
     /// Delete PoW Challenge object from Redis
-- 
2.43.0


From 0a227740dfbd9b6b728ba5f9e0051d6f1222b763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:06 +0000
Subject: [PATCH 14/17] fix: mCaptcha Redis module wasn't found behind other
 modules

---
 src/redis/mcaptcha_redis.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/redis/mcaptcha_redis.rs b/src/redis/mcaptcha_redis.rs
index 184961c..6615ffa 100644
--- a/src/redis/mcaptcha_redis.rs
+++ b/src/redis/mcaptcha_redis.rs
@@ -70,12 +70,12 @@ impl MCaptchaRedis {
 impl MCaptchaRedisConnection {
     async fn is_module_loaded(&self) -> CaptchaResult<()> {
         if let Value::Array(s) = self.0.exec(redis::cmd("MODULE").arg("LIST")).await.unwrap() {
-            if let Some(Value::Array(s)) = s.first() {
-                match s.iter().find(|i| format!("{:?}", i).contains(MODULE_NAME)) {
-                    Some(_) => (),
-                    None => return Err(CaptchaError::MCaptchaRedisModuleIsNotLoaded),
-                }
-            } else {
+            // the module may be anywhere among the loaded ones
+            let is_mcaptcha = |m: &Value| match m {
+                Value::Array(m) => m.iter().any(|i| format!("{:?}", i).contains(MODULE_NAME)),
+                _ => false,
+            };
+            if !s.iter().any(is_mcaptcha) {
                 return Err(CaptchaError::MCaptchaRedisModuleIsNotLoaded);
             }
         }
-- 
2.43.0


From d145220593fa2237bcff67c70836d3b56b4a0dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:06 +0000
Subject: [PATCH 15/17] fix: faults while looking for the mCaptcha Redis module
 crashed or were taken for success

---
 src/redis/mcaptcha_redis.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/redis/mcaptcha_redis.rs b/src/redis/mcaptcha_redis.rs
index 6615ffa..033fc6d 100644
--- a/src/redis/mcaptcha_redis.rs
+++ b/src/redis/mcaptcha_redis.rs
@@ -69,7 +69,7 @@ impl MCaptchaRedis {
 
 impl MCaptchaRedisConnection {
     async fn is_module_loaded(&self) -> CaptchaResult<()> {
-        if let Value::Array(s) = self.0.exec(redis::cmd("MODULE").arg("LIST")).await.unwrap() {
+        if let Value::Array(s) = self.0.exec(redis::cmd("MODULE").arg("LIST")).await? {
             // the module may be anywhere among the loaded ones
             let is_mcaptcha = |m: &Value| match m {
                 Value::Array(m) => m.iter().any(|i| format!("{:?}", i).contains(MODULE_NAME)),
@@ -78,6 +78,8 @@ impl MCaptchaRedisConnection {
             if !s.iter().any(is_mcaptcha) {
                 return Err(CaptchaError::MCaptchaRedisModuleIsNotLoaded);
             }
+        } else {
+            return Err(CaptchaError::MCaptchaRedisModuleError);
         }
 
         let commands = vec![
@@ -96,14 +98,15 @@ impl MCaptchaRedisConnection {
             if let Value::Array(mut val) = self
                 .0
                 .exec(redis::cmd("COMMAND").arg(&["INFO", cmd]))
-                .await
-                .unwrap()
+                .await?
             {
                 if let Some(Value::Nil) = val.pop() {
                     return Err(CaptchaError::MCaptchaRediSModuleCommandNotFound(
                         cmd.to_string(),
                     ));
                 };
+            } else {
+                return Err(CaptchaError::MCaptchaRedisModuleError);
             };
         }
         Ok(())
-- 
2.43.0


From 7ee7d12397599ce5dc20f107b66aaccf971d6d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:06 +0000
Subject: [PATCH 16/17] fix: tokens of different captchas could share a Redis
 key

---
 src/redis/mcaptcha_redis.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/redis/mcaptcha_redis.rs b/src/redis/mcaptcha_redis.rs
index 033fc6d..4fc8df7 100644
--- a/src/redis/mcaptcha_redis.rs
+++ b/src/redis/mcaptcha_redis.rs
@@ -47,6 +47,12 @@ const DELETE_CHALLENGE: &str = "MCAPTCHA_CACHE.DELETE_CHALLENGE";
 
 const MODULE_NAME: &str = "mcaptcha_cache";
 
+/// Redis key of a token: mcaptcha:token:<length of captcha>:captcha:token.
+/// Captcha and token may contain separators, different pairs must not share a key
+fn token_key(captcha: &str, token: &str) -> String {
+    format!("mcaptcha:token:{}:{}:{}", captcha.len(), captcha, token)
+}
+
 impl MCaptchaRedis {
     /// Get new [MCaptchaRedis]. Use this when executing commands that are
     /// only supported by mCaptcha Redis module. Internally, when object
@@ -211,8 +217,7 @@ impl MCaptchaRedisConnection {
 
     /// Add PoW Token object to Redis
     pub async fn add_token(&self, msg: &CacheResult) -> CaptchaResult<()> {
-        // mcaptcha:token:captcha::token
-        let key = format!("mcaptcha:token:{}:{}", &msg.key, &msg.token);
+        let key = token_key(&msg.key, &msg.token);
         self.0
             .exec::<()>(redis::cmd("SET").arg(&[
                 &key,
@@ -226,9 +231,7 @@ impl MCaptchaRedisConnection {
 
     /// Get PoW Token object to Redis
     pub async fn get_token(&self, msg: &VerifyCaptchaResult) -> CaptchaResult<bool> {
-        //use redis::RedisResult;
-        // mcaptcha:token:captcha::token
-        let key = format!("mcaptcha:token:{}:{}", &msg.key, &msg.token);
+        let key = token_key(&msg.key, &msg.token);
         let res = self.0.exec(redis::cmd("DEL").arg(&[&key])).await?;
         match res {
             1 => Ok(true),
@@ -239,9 +242,7 @@ impl MCaptchaRedisConnection {
 
     /// Delete PoW Token object from Redis
     pub async fn delete_token(&self, msg: &VerifyCaptchaResult) -> CaptchaResult<()> {
-        //use redis::RedisResult;
-        // mcaptcha:token:captcha::token
-        let key = format!("mcaptcha:token:{}:{}", &msg.key, &msg.token);
+        let key = token_key(&msg.key, &msg.token);
         self.0.exec::<()>(redis::cmd("DEL").arg(&[&key])).await?;
         Ok(())
     }
-- 
2.43.0


From e8a56573a420cd1c4b86ae806ca88eb34e573d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:06 +0000
Subject: [PATCH 17/17] fix: creating a Redis client crashed when the server
 couldn't be reached

---
 src/redis/mod.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/redis/mod.rs b/src/redis/mod.rs
index 14727f0..1903918 100644
--- a/src/redis/mod.rs
+++ b/src/redis/mod.rs
@@ -37,18 +37,20 @@ pub enum RedisConfig {
 }
 
 impl RedisConfig {
-    /// Create Redis connection
+    /// Create Redis connection. Panics if it can't be established
     pub async fn connect(&self) -> RedisClient {
+        self.try_connect().await.unwrap()
+    }
+
+    async fn try_connect(&self) -> CaptchaResult<RedisClient> {
         match self {
             Self::Single(url) => {
-                let client = ConnectionManager::new(Client::open(url.as_str()).unwrap())
-                    .await
-                    .unwrap();
-                RedisClient::Single(client)
+                let client = ConnectionManager::new(Client::open(url.as_str())?).await?;
+                Ok(RedisClient::Single(client))
             }
             Self::Cluster(nodes) => {
-                let cluster_client = ClusterClient::new(nodes.to_owned()).unwrap();
-                RedisClient::Cluster(cluster_client)
+                let cluster_client = ClusterClient::new(nodes.to_owned())?;
+                Ok(RedisClient::Cluster(cluster_client))
             }
         }
     }
@@ -122,7 +124,7 @@ impl Redis {
     }
 
     async fn connect(redis: RedisConfig) -> CaptchaResult<(RedisClient, RedisConnection)> {
-        let redis = redis.connect().await;
+        let redis = redis.try_connect().await?;
         let client = match &redis {
             RedisClient::Single(c) => RedisConnection::Single(Rc::new(RefCell::new(c.clone()))),
             RedisClient::Cluster(c) => {
-- 
2.43.0

