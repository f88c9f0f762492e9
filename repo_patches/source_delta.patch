From 13d26f3a1d5f0a9d45c0a4a91f6b81a6b04b967b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:48 +0000
Subject: [PATCH 01/19] fix: a tombstone no longer overrides a concurrent
 insert of the same version

A user who left one broker and connected to another within a sync interval was
removed again (and kicked) when the first broker had the larger identifier.
---
 cdn-broker/src/connections/versioned_map.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/cdn-broker/src/connections/versioned_map.rs b/cdn-broker/src/connections/versioned_map.rs
index 4649d1c..bd318c1 100644
--- a/cdn-broker/src/connections/versioned_map.rs
+++ b/cdn-broker/src/connections/versioned_map.rs
@@ -228,8 +228,17 @@ impl<
 
                     // If the remote value is equal to our value,
                     Ordering::Equal => {
-                        // The value with the bigger conflict identity wins
-                        if remote.conflict_identity > self.conflict_identity {
+                        // A value wins over a tombstone. Otherwise, the value with the bigger
+                        // conflict identity wins.
+                        let remote_wins = if remote_value.value.is_some()
+                            == local_value.value.is_some()
+                        {
+                            remote.conflict_identity > self.conflict_identity
+                        } else {
+                            remote_value.value.is_some()
+                        };
+
+                        if remote_wins {
                             // If there is some value,
                             // TODO: duplicate code here and above. macro it?
                             if remote_value.value.is_some() {
-- 
2.43.0


From e4a4fad02e5cf2d444164c10e63d5e00256b94b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:49 +0000
Subject: [PATCH 02/19] fix: do not kick a user another broker merely confirms
 as ours

A full sync from a (re)connecting broker with a larger identifier that lists one of
our users as ours was treated as the user having connected elsewhere.
---
 cdn-broker/src/connections/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cdn-broker/src/connections/mod.rs b/cdn-broker/src/connections/mod.rs
index 6499a99..fbf2403 100644
--- a/cdn-broker/src/connections/mod.rs
+++ b/cdn-broker/src/connections/mod.rs
@@ -156,7 +156,13 @@ impl Connections {
         let users_to_remove = self.direct_map.merge(map);
 
         // We should remove the users that are different, if they exist locally.
-        for (user, _new_broker) in users_to_remove {
+        for (user, new_broker) in users_to_remove {
+            // A remote that (still) says the user is connected to us has not seen it connect
+            // anywhere else
+            if new_broker.as_ref() == Some(&self.identity) && self.users.contains_key(&user) {
+                continue;
+            }
+
             self.remove_user(user, "user connected elsewhere");
         }
     }
-- 
2.43.0


From 3847b1286c5b029291249e48ec91d44b9effe746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:12 +0000
Subject: [PATCH 03/19] fix: a failing old connection no longer evicts the
 user's or broker's new one

Errors on a connection removed whatever connection was registered under the same
key at that time; and a connection failing before it was registered stayed
registered for good.
---
 cdn-broker/src/connections/mod.rs         | 32 ++++++++++
 cdn-broker/src/tasks/broker/handler.rs    | 75 +++++++++++++----------
 cdn-broker/src/tasks/broker/sender.rs     |  9 +--
 cdn-broker/src/tasks/user/handler.rs      | 46 ++++++++------
 cdn-broker/src/tasks/user/sender.rs       | 10 +--
 cdn-proto/src/connection/protocols/mod.rs |  5 ++
 6 files changed, 119 insertions(+), 58 deletions(-)

diff --git a/cdn-broker/src/connections/mod.rs b/cdn-broker/src/connections/mod.rs
index fbf2403..a1bb250 100644
--- a/cdn-broker/src/connections/mod.rs
+++ b/cdn-broker/src/connections/mod.rs
@@ -356,6 +356,38 @@ impl Connections {
             .remove_if_equals(user_public_key, self.identity.clone());
     }
 
+    /// Remove a broker, unless it has since been replaced by a newer connection.
+    pub fn remove_broker_connection(
+        &mut self,
+        broker_identifier: &BrokerIdentifier,
+        connection: &Connection,
+        reason: &str,
+    ) {
+        if self
+            .brokers
+            .get(broker_identifier)
+            .is_some_and(|broker| broker.connection.is_same(connection))
+        {
+            self.remove_broker(broker_identifier, reason);
+        }
+    }
+
+    /// Remove a user, unless it has since been replaced by a newer connection.
+    pub fn remove_user_connection(
+        &mut self,
+        user_public_key: UserPublicKey,
+        connection: &Connection,
+        reason: &str,
+    ) {
+        if self
+            .users
+            .get(&user_public_key)
+            .is_some_and(|(current, _)| current.is_same(connection))
+        {
+            self.remove_user(user_public_key, reason);
+        }
+    }
+
     /// Locally subscribe a broker to some topics.
     pub fn subscribe_broker_to(
         &mut self,
diff --git a/cdn-broker/src/tasks/broker/handler.rs b/cdn-broker/src/tasks/broker/handler.rs
index 9302490..9ea597e 100644
--- a/cdn-broker/src/tasks/broker/handler.rs
+++ b/cdn-broker/src/tasks/broker/handler.rs
@@ -67,41 +67,52 @@ impl<Def: RunDef> Inner<Def> {
         let connection_ = connection.clone();
         let broker_identifier_ = broker_identifier.clone();
 
-        // Start the receiving end of the broker
-        let receive_handle = spawn(async move {
-            // If we error, come back to the callback so we can remove the connection from the list.
-            if let Err(err) = self_
-                .broker_receive_loop(&broker_identifier_, connection_)
-                .await
-            {
-                error!(
-                    id = %broker_identifier_,
-                    error = err.to_string(),
-                    "broker error"
-                );
-
-                // Remove the broker from the map
-                self_
-                    .connections
-                    .write()
-                    .remove_broker(&broker_identifier_, "failed to receive message");
-            };
-        })
-        .abort_handle();
+        {
+            // Hold the lock until the broker is added, so the receive loop can't fail (and try to remove
+            // the broker) before that
+            let mut connections = self.connections.write();
+
+            // Start the receiving end of the broker
+            let receive_handle = spawn(async move {
+                // If we error, come back to the callback so we can remove the connection from the list.
+                if let Err(err) = self_
+                    .broker_receive_loop(&broker_identifier_, connection_.clone())
+                    .await
+                {
+                    error!(
+                        id = %broker_identifier_,
+                        error = err.to_string(),
+                        "broker error"
+                    );
 
-        // Add to our list of connections, removing the old one if it exists
-        self.connections
-            .write()
-            .add_broker(broker_identifier.clone(), connection, receive_handle);
+                    // Remove the broker from the map
+                    self_.connections.write().remove_broker_connection(
+                        &broker_identifier_,
+                        &connection_,
+                        "failed to receive message",
+                    );
+                };
+            })
+            .abort_handle();
+
+            // Add to our list of connections, removing the old one if it exists
+            connections.add_broker(
+                broker_identifier.clone(),
+                connection.clone(),
+                receive_handle,
+            );
+        }
 
         // Send a full topic sync
         if let Err(err) = self.full_topic_sync(&broker_identifier).await {
             error!("failed to perform full topic sync: {err}");
 
             // Remove the broker if we fail the initial sync
-            self.connections
-                .write()
-                .remove_broker(&broker_identifier, "failed to send full topic sync");
+            self.connections.write().remove_broker_connection(
+                &broker_identifier,
+                &connection,
+                "failed to send full topic sync",
+            );
 
             return;
         };
@@ -111,9 +122,11 @@ impl<Def: RunDef> Inner<Def> {
             error!("failed to perform full user sync: {err}");
 
             // Remove the broker if we fail the initial sync
-            self.connections
-                .write()
-                .remove_broker(&broker_identifier, "failed to send full user sync");
+            self.connections.write().remove_broker_connection(
+                &broker_identifier,
+                &connection,
+                "failed to send full user sync",
+            );
         };
     }
 
diff --git a/cdn-broker/src/tasks/broker/sender.rs b/cdn-broker/src/tasks/broker/sender.rs
index bbb7de8..e542ecc 100644
--- a/cdn-broker/src/tasks/broker/sender.rs
+++ b/cdn-broker/src/tasks/broker/sender.rs
@@ -36,10 +36,11 @@ impl<Def: RunDef> Inner<Def> {
                 error!("failed to send message to broker: {:?}", e);
 
                 // Remove the broker if we failed to send the message
-                self_
-                    .connections
-                    .write()
-                    .remove_broker(&broker_identifier_, "failed to send message");
+                self_.connections.write().remove_broker_connection(
+                    &broker_identifier_,
+                    &connection,
+                    "failed to send message",
+                );
             }
         }
     }
diff --git a/cdn-broker/src/tasks/user/handler.rs b/cdn-broker/src/tasks/user/handler.rs
index d43463c..67426f6 100644
--- a/cdn-broker/src/tasks/user/handler.rs
+++ b/cdn-broker/src/tasks/user/handler.rs
@@ -55,25 +55,33 @@ impl<Def: RunDef> Inner<Def> {
         let public_key_ = public_key.clone();
         let connection_ = connection.clone();
 
-        // Spawn the user receive loop
-        let receive_handle = spawn(async move {
-            // If we error, come back to the callback so we can remove the connection from the list.
-            if let Err(err) = self_.user_receive_loop(&public_key_, connection_).await {
-                warn!(id = user_identifier, error = err.to_string(), "user error");
-
-                // Remove the user from the map
-                self_
-                    .connections
-                    .write()
-                    .remove_user(public_key_, "failed to receive message");
-            };
-        })
-        .abort_handle();
-
-        // Add our user and remove the old one if it exists
-        self.connections
-            .write()
-            .add_user(&public_key, connection, &topics, receive_handle);
+        {
+            // Hold the lock until the user is added, so the receive loop can't fail (and try to remove
+            // the user) before that
+            let mut connections = self.connections.write();
+
+            // Spawn the user receive loop
+            let receive_handle = spawn(async move {
+                // If we error, come back to the callback so we can remove the connection from the list.
+                if let Err(err) = self_
+                    .user_receive_loop(&public_key_, connection_.clone())
+                    .await
+                {
+                    warn!(id = user_identifier, error = err.to_string(), "user error");
+
+                    // Remove the user from the map
+                    self_.connections.write().remove_user_connection(
+                        public_key_,
+                        &connection_,
+                        "failed to receive message",
+                    );
+                };
+            })
+            .abort_handle();
+
+            // Add our user and remove the old one if it exists
+            connections.add_user(&public_key, connection, &topics, receive_handle);
+        }
 
         // If we have `strong-consistency` enabled,
         #[cfg(feature = "strong-consistency")]
diff --git a/cdn-broker/src/tasks/user/sender.rs b/cdn-broker/src/tasks/user/sender.rs
index c701f38..47b9a33 100644
--- a/cdn-broker/src/tasks/user/sender.rs
+++ b/cdn-broker/src/tasks/user/sender.rs
@@ -23,10 +23,12 @@ impl<Def: RunDef> Inner<Def> {
             if let Err(e) = connection.send_message_raw(message).await {
                 error!("failed to send message to user: {:?}", e);
 
-                // Remove the broker if we failed to send the message
-                self.connections
-                    .write()
-                    .remove_user(user.clone(), "failed to send message");
+                // Remove the user if we failed to send the message
+                self.connections.write().remove_user_connection(
+                    user.clone(),
+                    &connection,
+                    "failed to send message",
+                );
             }
         }
     }
diff --git a/cdn-proto/src/connection/protocols/mod.rs b/cdn-proto/src/connection/protocols/mod.rs
index b53b1e6..2a4714c 100644
--- a/cdn-proto/src/connection/protocols/mod.rs
+++ b/cdn-proto/src/connection/protocols/mod.rs
@@ -134,6 +134,11 @@ impl Connection {
         }))
     }
 
+    /// Whether both are handles to the same underlying connection.
+    pub fn is_same(&self, other: &Self) -> bool {
+        Arc::ptr_eq(&self.0, &other.0)
+    }
+
     /// Converts a set of writer and reader streams into a connection.
     /// Under the hood, this spawns sending and receiving tasks.
     fn from_streams<
-- 
2.43.0


From 92aa736321895e539edc9dade181a890a69e219e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:17 +0000
Subject: [PATCH 04/19] fix: a full user sync no longer shares changes that can
 still change unversioned

A broker that connected between a user's arrival and its partial sync kept the user
for good if it left before that sync: the tombstone had the same version.
---
 cdn-broker/src/connections/mod.rs           |  8 +++++---
 cdn-broker/src/connections/versioned_map.rs | 11 +++++++++++
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/cdn-broker/src/connections/mod.rs b/cdn-broker/src/connections/mod.rs
index a1bb250..9458a49 100644
--- a/cdn-broker/src/connections/mod.rs
+++ b/cdn-broker/src/connections/mod.rs
@@ -129,12 +129,14 @@ impl Connections {
     }
 
     /// Get the full versioned vector map of user -> broker.
-    /// We send this to other brokers so they can merge it.
+    /// We send this to other brokers so they can merge it. Changes that were not part of a
+    /// partial sync yet will be part of the next one.
     pub fn get_full_user_sync(&self) -> Option<DirectMap> {
-        if self.direct_map.underlying_map.is_empty() {
+        let synced = self.direct_map.get_synced();
+        if synced.is_empty() {
             None
         } else {
-            Some(self.direct_map.clone())
+            Some(synced)
         }
     }
 
diff --git a/cdn-broker/src/connections/versioned_map.rs b/cdn-broker/src/connections/versioned_map.rs
index bd318c1..60ccdf0 100644
--- a/cdn-broker/src/connections/versioned_map.rs
+++ b/cdn-broker/src/connections/versioned_map.rs
@@ -163,6 +163,17 @@ impl<
         }
     }
 
+    /// Get the part of the underlying map that was already returned by a `diff` (or merged from
+    /// elsewhere), leaving out unsynced local modifications. These can still change without their
+    /// version changing, and are part of the next `diff` anyway.
+    pub fn get_synced(&self) -> Self {
+        let mut synced = self.get_full();
+        synced
+            .underlying_map
+            .retain(|key, _| !self.locally_modified_keys.contains(key));
+        synced
+    }
+
     /// Get the `diff`erence since last time we called it. Returns a `VersionedMap` that
     /// contains the differences as well as our conflict identity.
     pub fn diff(&mut self) -> Self {
-- 
2.43.0


From 87f890c701a9acf586ec65b1aa2fffffb35a639c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:44 +0000
Subject: [PATCH 05/19] fix: a timestamp from the future no longer overflows
 the freshness check

---
 cdn-proto/src/connection/auth/broker.rs  | 8 ++++++--
 cdn-proto/src/connection/auth/marshal.rs | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/cdn-proto/src/connection/auth/broker.rs b/cdn-proto/src/connection/auth/broker.rs
index c75839c..897e4fe 100644
--- a/cdn-proto/src/connection/auth/broker.rs
+++ b/cdn-proto/src/connection/auth/broker.rs
@@ -277,8 +277,12 @@ impl<R: RunDef> BrokerAuth<R> {
             fail_verification_with_message!(connection, "malformed timestamp");
         };
 
-        // Make sure the timestamp is within 5 seconds
-        if timestamp.as_secs() - auth_message.timestamp > 5 {
+        // Make sure the timestamp is within the last 5 seconds (and not in the future)
+        if timestamp
+            .as_secs()
+            .checked_sub(auth_message.timestamp)
+            .map_or(true, |age| age > 5)
+        {
             fail_verification_with_message!(connection, "timestamp is too old");
         }
 
diff --git a/cdn-proto/src/connection/auth/marshal.rs b/cdn-proto/src/connection/auth/marshal.rs
index 418ea3c..f592d7d 100644
--- a/cdn-proto/src/connection/auth/marshal.rs
+++ b/cdn-proto/src/connection/auth/marshal.rs
@@ -77,8 +77,12 @@ impl<R: RunDef> MarshalAuth<R> {
             fail_verification_with_message!(connection, "malformed timestamp");
         };
 
-        // Make sure the timestamp is within 5 seconds
-        if timestamp.as_secs() - auth_message.timestamp > 5 {
+        // Make sure the timestamp is within the last 5 seconds (and not in the future)
+        if timestamp
+            .as_secs()
+            .checked_sub(auth_message.timestamp)
+            .map_or(true, |age| age > 5)
+        {
             fail_verification_with_message!(connection, "timestamp is too old");
         }
 
-- 
2.43.0


From f9aa6ac097a7e5954dc94c3baf2b3071205dcf83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:06 +0000
Subject: [PATCH 06/19] fix: the permit names the verified key, not the bytes
 it was sent as

---
 cdn-proto/src/connection/auth/marshal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdn-proto/src/connection/auth/marshal.rs b/cdn-proto/src/connection/auth/marshal.rs
index f592d7d..7e76114 100644
--- a/cdn-proto/src/connection/auth/marshal.rs
+++ b/cdn-proto/src/connection/auth/marshal.rs
@@ -127,7 +127,7 @@ impl<R: RunDef> MarshalAuth<R> {
                 #[cfg(not(feature = "global-permits"))]
                 &broker_with_least_connections,
                 Duration::from_secs(30),
-                auth_message.public_key,
+                public_key.clone(),
             )
             .await
         {
-- 
2.43.0


From dff0db0e2899fb2d6bf7ae0c858577eaf9c6ca17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:37 +0000
Subject: [PATCH 07/19] fix: never issue a permit with a number reserved for
 responses

---
 cdn-proto/src/discovery/embedded.rs | 11 +++++++++--
 cdn-proto/src/discovery/redis.rs    | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/cdn-proto/src/discovery/embedded.rs b/cdn-proto/src/discovery/embedded.rs
index 3303cdf..0da44ff 100644
--- a/cdn-proto/src/discovery/embedded.rs
+++ b/cdn-proto/src/discovery/embedded.rs
@@ -234,9 +234,16 @@ impl DiscoveryClient for Embedded {
         expiry: Duration,
         public_key: Vec<u8>,
     ) -> Result<u64> {
-        // Create random permit number
+        // Create random permit number. Zero and one are reserved, as responses use them to
+        // signify failure and success
         // TODO: figure out if it makes sense to initialize this somewhere else
-        let permit = StdRng::from_entropy().next_u32();
+        let mut rng = StdRng::from_entropy();
+        let permit = loop {
+            let permit = rng.next_u32();
+            if permit > 1 {
+                break permit;
+            }
+        };
 
         #[cfg(not(feature = "global-permits"))]
         let broker = for_broker.to_string();
diff --git a/cdn-proto/src/discovery/redis.rs b/cdn-proto/src/discovery/redis.rs
index 6518f8d..d865d6b 100644
--- a/cdn-proto/src/discovery/redis.rs
+++ b/cdn-proto/src/discovery/redis.rs
@@ -210,9 +210,16 @@ impl DiscoveryClient for Redis {
         expiry: Duration,
         public_key: Vec<u8>,
     ) -> Result<u64> {
-        // Create random permit number
+        // Create random permit number. Zero and one are reserved, as responses use them to
+        // signify failure and success
         // TODO: figure out if it makes sense to initialize this somewhere else
-        let permit = StdRng::from_entropy().next_u64();
+        let mut rng = StdRng::from_entropy();
+        let permit = loop {
+            let permit = rng.next_u64();
+            if permit > 1 {
+                break permit;
+            }
+        };
 
         // Issue this permit for either one broker or all brokers (if we have
         // the `global-permits` feature enabled)
-- 
2.43.0


From ef3d155756eb5e37c05d459ad23360e5f6b5c3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:29 +0000
Subject: [PATCH 08/19] fix: outstanding permits count as a broker's load with
 Redis, too

---
 cdn-proto/src/discovery/redis.rs | 47 ++++++++++++++++++++++++--------
 1 file changed, 36 insertions(+), 11 deletions(-)

diff --git a/cdn-proto/src/discovery/redis.rs b/cdn-proto/src/discovery/redis.rs
index d865d6b..5768c7d 100644
--- a/cdn-proto/src/discovery/redis.rs
+++ b/cdn-proto/src/discovery/redis.rs
@@ -223,18 +223,33 @@ impl DiscoveryClient for Redis {
 
         // Issue this permit for either one broker or all brokers (if we have
         // the `global-permits` feature enabled)
-        let mut cmd = redis::cmd("SET");
+        let mut pipeline = redis::pipe();
+        pipeline.atomic().cmd("SET");
         #[cfg(not(feature = "global-permits"))]
         // Per-broker permit
-        cmd.arg(&[format!("{for_broker}/permits/{permit}")]);
+        pipeline.arg(&[format!("{for_broker}/permits/{permit}")]);
         #[cfg(feature = "global-permits")]
         // Global permit
-        cmd.arg(&[format!("permits/{permit}")]);
+        pipeline.arg(&[format!("permits/{permit}")]);
+        pipeline
+            .arg(public_key)
+            .arg(&["EX", &expiry.as_secs().to_string()]);
+
+        // Add it to the broker's outstanding permits, which count as load until they expire
+        #[cfg(not(feature = "global-permits"))]
+        pipeline
+            .cmd("SADD")
+            .arg(&[format!("{for_broker}/permits"), permit.to_string()])
+            .cmd("EXPIREMEMBER")
+            .arg(&[
+                format!("{for_broker}/permits"),
+                permit.to_string(),
+                expiry.as_secs().to_string(),
+            ]);
 
         // Issue the permit
         bail!(
-            cmd.arg(public_key)
-                .arg(&["EX", &expiry.as_secs().to_string()])
+            pipeline
                 .query_async::<()>(&mut self.underlying_connection)
                 .await,
             Connection,
@@ -257,18 +272,28 @@ impl DiscoveryClient for Redis {
     ) -> Result<Option<Vec<u8>>> {
         // Remove this permit verifying it exists for either one broker or
         // all brokers (with the `global-permits` feature enabled)
-        let mut cmd = redis::cmd("GETDEL");
+        let mut pipeline = redis::pipe();
+        pipeline.atomic().cmd("GETDEL");
         #[cfg(not(feature = "global-permits"))]
-        cmd.arg(&[format!("{for_broker}/permits/{permit}")]);
+        pipeline.arg(&[format!("{for_broker}/permits/{permit}")]);
         #[cfg(feature = "global-permits")]
-        cmd.arg(&[format!("permits/{permit}")]);
+        pipeline.arg(&[format!("permits/{permit}")]);
+
+        // It is no longer outstanding
+        #[cfg(not(feature = "global-permits"))]
+        pipeline
+            .cmd("SREM")
+            .arg(&[format!("{for_broker}/permits"), permit.to_string()])
+            .ignore();
 
         // Remove the permit
-        Ok(bail!(
-            cmd.query_async(&mut self.underlying_connection).await,
+        let (public_key,): (Option<Vec<u8>>,) = bail!(
+            pipeline.query_async(&mut self.underlying_connection).await,
             Connection,
             "failed to connect to Redis"
-        ))
+        );
+
+        Ok(public_key)
     }
 
     /// Atomically set the list of whitelisted users
-- 
2.43.0


From 715e29cf934b104484ab17ecf0ee44671caacd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:05 +0000
Subject: [PATCH 09/19] fix: the embedded whitelist is replaced atomically

---
 cdn-proto/src/discovery/embedded.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cdn-proto/src/discovery/embedded.rs b/cdn-proto/src/discovery/embedded.rs
index 0da44ff..68839ab 100644
--- a/cdn-proto/src/discovery/embedded.rs
+++ b/cdn-proto/src/discovery/embedded.rs
@@ -350,9 +350,16 @@ impl DiscoveryClient for Embedded {
         // Build the query
         let query = query_builder.build();
 
-        // Execute the query
+        // Execute the query in a transaction, so that nobody sees (and a failure does not leave
+        // behind) a missing or empty whitelist
+        let mut transaction = bail!(self.pool.begin().await, File, "failed to set whitelist");
         bail!(
-            query.execute(&self.pool).await,
+            query.execute(&mut *transaction).await,
+            File,
+            "failed to set whitelist"
+        );
+        bail!(
+            transaction.commit().await,
             File,
             "failed to set whitelist"
         );
-- 
2.43.0


From 5c970641c3e94da4adfa1bc9812c962f5a46cfb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:55 +0000
Subject: [PATCH 10/19] fix: a subscription call that changes nothing sends
 nothing

---
 cdn-client/src/lib.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/cdn-client/src/lib.rs b/cdn-client/src/lib.rs
index c379b7b..7bffcb2 100644
--- a/cdn-client/src/lib.rs
+++ b/cdn-client/src/lib.rs
@@ -390,6 +390,12 @@ impl<C: ConnectionDef> Client<C> {
             .filter(|topic| !subscribed_guard.contains(topic))
             .collect();
 
+        // If nothing would change there is nothing to send. The broker treats an empty list
+        // of topics as an error, and would disconnect us.
+        if topics_to_send.is_empty() {
+            return Ok(());
+        }
+
         // Send the topics
         bail!(
             self.send_message(Message::Subscribe(topics_to_send.clone()))
@@ -424,6 +430,12 @@ impl<C: ConnectionDef> Client<C> {
             .filter(|topic| subscribed_guard.contains(topic))
             .collect();
 
+        // If nothing would change there is nothing to send. The broker treats an empty list
+        // of topics as an error, and would disconnect us.
+        if topics_to_send.is_empty() {
+            return Ok(());
+        }
+
         // Send the topics
         bail!(
             self.send_message(Message::Unsubscribe(topics_to_send.clone()))
-- 
2.43.0


From 1b50d597a73543fa70ca954798f92b5a1509a555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:55 +0000
Subject: [PATCH 11/19] fix: a client closed while it starts reconnecting stays
 closed

---
 cdn-client/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cdn-client/src/lib.rs b/cdn-client/src/lib.rs
index 7bffcb2..2ae84f7 100644
--- a/cdn-client/src/lib.rs
+++ b/cdn-client/src/lib.rs
@@ -204,6 +204,10 @@ impl<C: ConnectionDef> Client<C> {
     fn reconnect_if_needed(&self, possible_connection: Option<Connection>) -> Result<Connection> {
         let Some(connection) = possible_connection else {
             // If the connection is not initialized for one reason or another, try to reconnect
+            // Lock the task so that `close()` either sees the task we spawn, or we see that the
+            // client has been closed
+            let mut current_task = self.reconnection_task.lock();
+
             // Acquire the semaphore to ensure only one reconnection is happening at a time
             match Arc::clone(&self.connecting_guard).try_acquire_owned() {
                 Ok(permit) => {
@@ -238,7 +242,7 @@ impl<C: ConnectionDef> Client<C> {
                     }));
 
                     // Update the reconnection task
-                    *self.reconnection_task.lock() = Some(reconnection_task);
+                    *current_task = Some(reconnection_task);
                 }
                 Err(TryAcquireError::Closed) => {
                     // The client has been manually closed
-- 
2.43.0


From e260ce7f20f316ec4a1e088dbe9e5b3882954bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:42 +0000
Subject: [PATCH 12/19] fix: waiting for the connection of a client that gets
 closed is an error

---
 cdn-client/src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cdn-client/src/lib.rs b/cdn-client/src/lib.rs
index 2ae84f7..3e0926d 100644
--- a/cdn-client/src/lib.rs
+++ b/cdn-client/src/lib.rs
@@ -335,8 +335,13 @@ impl<C: ConnectionDef> Client<C> {
             return Ok(());
         }
 
-        // Otherwise, wait to acquire the connecting guard
-        let _ = self.connecting_guard.acquire().await;
+        // Otherwise, wait to acquire the connecting guard. This fails if the client has been
+        // manually closed in the meantime.
+        bail!(
+            self.connecting_guard.acquire().await,
+            Connection,
+            "client has been manually closed"
+        );
 
         Ok(())
     }
-- 
2.43.0


From c6a1787788b398e60d67901350b263c1a2dce815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:12 +0000
Subject: [PATCH 13/19] fix: a failed call only drops the connection it failed
 on, and never waits for a reconnection

---
 cdn-client/src/lib.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/cdn-client/src/lib.rs b/cdn-client/src/lib.rs
index 3e0926d..c63d8e9 100644
--- a/cdn-client/src/lib.rs
+++ b/cdn-client/src/lib.rs
@@ -144,18 +144,22 @@ pub struct Config<C: ConnectionDef> {
     pub subscribed_topics: Vec<Topic>,
 }
 
-// Disconnects the current connection if an error was passed in and we're
-// not already reconnecting.
+// Disconnects the connection an error came from, if it is still the current one and
+// we're not already reconnecting.
 macro_rules! disconnect_on_error {
-    ($self:expr, $res: expr) => {
+    ($self:expr, $connection:expr, $res: expr) => {
         match $res {
             Ok(t) => Ok(t),
             Err(e) => {
-                // If we are not currently reconnecting, take the current connection
-                if $self.connecting_guard.available_permits() > 0 {
-                    // If we ran into an error, take the current connection.
-                    // This will only start reconnecting if we try to receive or send another message.
-                    $self.connection.write().await.take();
+                // If we ran into an error, take the current connection (if it is the one that failed).
+                // This will only start reconnecting if we try to receive or send another message.
+                //
+                // Do not wait for the lock: it is held while reconnecting, which in turn waits for the
+                // subscribed topics that our caller may have locked.
+                if let Ok(mut current) = $self.connection.try_write() {
+                    if current.as_ref().is_some_and(|c| c.is_same(&$connection)) {
+                        current.take();
+                    }
                 }
 
                 Err(e)
@@ -301,7 +305,7 @@ impl<C: ConnectionDef> Client<C> {
         let connection = self.try_get_connection()?;
 
         // Soft close the connection
-        disconnect_on_error!(self, connection.send_message(message).await)
+        disconnect_on_error!(self, connection, connection.send_message(message).await)
     }
 
     /// Receives a message from the underlying fallible connection. Reconnection logic is here,
@@ -315,7 +319,7 @@ impl<C: ConnectionDef> Client<C> {
         let connection = self.get_connection().await?;
 
         // Receive a message
-        disconnect_on_error!(self, connection.recv_message().await)
+        disconnect_on_error!(self, connection, connection.recv_message().await)
     }
 
     /// Returns only when the connection is fully initialized
@@ -474,7 +478,7 @@ impl<C: ConnectionDef> Client<C> {
         let connection = self.try_get_connection()?;
 
         // Soft close the connection
-        disconnect_on_error!(self, connection.soft_close().await)
+        disconnect_on_error!(self, connection, connection.soft_close().await)
     }
 
     /// Shut down the client, closing the connection and aborting all tasks.
-- 
2.43.0


From de0ccf035e125d0a1e8f38a1da068bccadfdcd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:31 +0000
Subject: [PATCH 14/19] fix: refuse text that is not the form of any broker
 identity

---
 cdn-proto/src/discovery/mod.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/cdn-proto/src/discovery/mod.rs b/cdn-proto/src/discovery/mod.rs
index f35503f..e0a413e 100644
--- a/cdn-proto/src/discovery/mod.rs
+++ b/cdn-proto/src/discovery/mod.rs
@@ -107,7 +107,7 @@ impl TryFrom<String> for BrokerIdentifier {
         let mut split = value.split('/');
 
         // Create a new `Self` from the split string
-        Ok(Self {
+        let identifier = Self {
             public_advertise_endpoint: split
                 .next()
                 .ok_or_else(|| {
@@ -124,6 +124,15 @@ impl TryFrom<String> for BrokerIdentifier {
                     )
                 })?
                 .to_string(),
-        })
+        };
+
+        // Anything more is not the form of any identifier: do not mistake it for another one
+        if split.next().is_some() {
+            return Err(Error::Parse(
+                "failed to parse broker identifier: too many parts".to_string(),
+            ));
+        }
+
+        Ok(identifier)
     }
 }
-- 
2.43.0


From 0f77ff93dac239d63d57db2d726dd17c6d3a37db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:31 +0000
Subject: [PATCH 15/19] fix: refuse messages that can never fit into the memory
 pool instead of waiting forever

---
 cdn-proto/src/connection/limiter/mod.rs   |  8 ++++++++
 cdn-proto/src/connection/limiter/pool.rs  | 10 ++++++++--
 cdn-proto/src/connection/protocols/mod.rs |  7 +++++++
 3 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/cdn-proto/src/connection/limiter/mod.rs b/cdn-proto/src/connection/limiter/mod.rs
index 81c2a26..d9c016a 100644
--- a/cdn-proto/src/connection/limiter/mod.rs
+++ b/cdn-proto/src/connection/limiter/mod.rs
@@ -67,6 +67,14 @@ impl Limiter {
         }
     }
 
+    /// Whether a message of `num_bytes` bytes can be allocated at all, i.e. fits into the global
+    /// memory pool (if set).
+    pub fn fits(&self, num_bytes: u32) -> bool {
+        self.global_memory_pool
+            .as_ref()
+            .map_or(true, |pool| pool.fits(num_bytes))
+    }
+
     /// Get the connection message pool size, if set.
     pub const fn connection_message_pool_size(&self) -> Option<usize> {
         // Return the connection message pool size
diff --git a/cdn-proto/src/connection/limiter/pool.rs b/cdn-proto/src/connection/limiter/pool.rs
index 9abe2d0..a3011a0 100644
--- a/cdn-proto/src/connection/limiter/pool.rs
+++ b/cdn-proto/src/connection/limiter/pool.rs
@@ -25,12 +25,18 @@ use crate::connection::metrics;
 /// A global memory arena that tracks but does not allocate memory.
 /// Allows for asynchronous capping of memory usage.
 #[derive(Clone)]
-pub struct MemoryPool(Arc<Semaphore>);
+pub struct MemoryPool(Arc<Semaphore>, usize);
 
 impl MemoryPool {
     /// Create a new `MemoryPool` from the number of bytes to
     pub fn new(n: usize) -> Self {
-        Self(Arc::from(Semaphore::const_new(n)))
+        Self(Arc::from(Semaphore::const_new(n)), n)
+    }
+
+    /// Whether `n` bytes can be allocated at all. If not, waiting for them would last forever,
+    /// and keep everybody else waiting too.
+    pub const fn fits(&self, n: u32) -> bool {
+        n as usize <= self.1
     }
 }
 
diff --git a/cdn-proto/src/connection/protocols/mod.rs b/cdn-proto/src/connection/protocols/mod.rs
index 2a4714c..4ad63e5 100644
--- a/cdn-proto/src/connection/protocols/mod.rs
+++ b/cdn-proto/src/connection/protocols/mod.rs
@@ -329,6 +329,13 @@ async fn read_length_delimited<R: AsyncReadExt + Unpin + Send>(
         return Err(Error::Connection("message was too large".to_string()));
     }
 
+    // Make sure we can ever allocate the memory for it
+    if !limiter.fits(message_size) {
+        return Err(Error::Connection(
+            "message does not fit into the memory pool".to_string(),
+        ));
+    }
+
     // Acquire the allocation if necessary
     let permit = limiter.allocate_message_bytes(message_size).await;
 
-- 
2.43.0


From e232eeda472211ec061a187bfa9ea905d4bd2421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:33 +0000
Subject: [PATCH 16/19] fix: a soft close no longer waits forever on a
 connection that failed meanwhile

---
 cdn-proto/src/connection/protocols/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cdn-proto/src/connection/protocols/mod.rs b/cdn-proto/src/connection/protocols/mod.rs
index 4ad63e5..94059f1 100644
--- a/cdn-proto/src/connection/protocols/mod.rs
+++ b/cdn-proto/src/connection/protocols/mod.rs
@@ -167,6 +167,7 @@ impl Connection {
                         if let Err(err) = write_length_delimited(&mut writer, message).await {
                             warn!("failed to write message to stream: {:?}", err);
                             receive_from_caller.close();
+                            drain(&receive_from_caller);
                             return;
                         };
 
@@ -175,6 +176,7 @@ impl Connection {
                         if let Err(err) = writer.flush().await {
                             warn!("failed to flush writer: {:?}", err);
                             receive_from_caller.close();
+                            drain(&receive_from_caller);
                             return;
                         };
                     }
@@ -311,6 +313,12 @@ impl Connection {
     }
 }
 
+/// Drop everything that is left in a closed channel: nobody will send it any more. This returns the
+/// memory of queued messages, and lets those waiting for a soft close know that it failed.
+fn drain(receiver: &Receiver<BytesOrSoftClose>) {
+    while receiver.try_recv().is_ok() {}
+}
+
 /// Read a length-delimited (serialized) message from a stream.
 /// Has a bounds check for if the message is too big
 async fn read_length_delimited<R: AsyncReadExt + Unpin + Send>(
-- 
2.43.0


From 88a25c8203a7eb0f001a4ed058e2f9da5ebb8bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:33 +0000
Subject: [PATCH 17/19] fix: simultaneous in-memory connections no longer
 receive each other's streams

---
 cdn-proto/src/connection/protocols/memory.rs | 79 +++++++++++---------
 1 file changed, 45 insertions(+), 34 deletions(-)

diff --git a/cdn-proto/src/connection/protocols/memory.rs b/cdn-proto/src/connection/protocols/memory.rs
index ab05ddf..b21b992 100644
--- a/cdn-proto/src/connection/protocols/memory.rs
+++ b/cdn-proto/src/connection/protocols/memory.rs
@@ -9,7 +9,7 @@
 
 use std::{collections::HashMap, sync::OnceLock};
 
-use async_channel::{unbounded, Receiver, Sender};
+use async_channel::{bounded, unbounded, Receiver, Sender};
 use async_trait::async_trait;
 use rustls::pki_types::{CertificateDer, PrivateKeyDer};
 use tokio::{
@@ -25,11 +25,13 @@ use crate::{
     error::{Error, Result},
 };
 
-type ChannelExchange = (Sender<DuplexStream>, Receiver<DuplexStream>);
+/// What a connector hands to the listener: the stream to send to it over, along with the
+/// channel on which _that_ connector (and no other one) waits for the listener's stream.
+type ChannelExchange = (DuplexStream, Sender<DuplexStream>);
 
 /// A global list of listeners that are initialized later. This is to help
 /// connections find listeners.
-static LISTENERS: OnceLock<RwLock<HashMap<String, ChannelExchange>>> = OnceLock::new();
+static LISTENERS: OnceLock<RwLock<HashMap<String, Sender<ChannelExchange>>>> = OnceLock::new();
 
 #[derive(Clone, PartialEq, Eq)]
 /// The `Memory` protocol. Runs everything through channels for local testing purposes.
@@ -52,23 +54,30 @@ impl Protocol for Memory {
         // If the peer is not listening, return an error
         // Get or initialize the channels as a static value
         let listeners = LISTENERS.get_or_init(RwLock::default).read().await;
-        let Some((channel_exchange_sender, channel_exchange_receiver)) =
-            listeners.get(remote_endpoint)
-        else {
+        let Some(channel_exchange_sender) = listeners.get(remote_endpoint).cloned() else {
             return Err(Error::Connection(
                 "failed to connect to remote: connection refused".to_string(),
             ));
         };
 
+        // Don't hold on to the listeners while we wait for this one to accept us
+        drop(listeners);
+
         // Create a duplex stream to send and receive bytes
         let (send_to_us, receive_from_them) = duplex(8192);
 
+        // Create the channel over which we will receive theirs
+        let (channel_exchange_reply, channel_exchange_receiver) = bounded(1);
+
         // Send our channel to them
         bail!(
-            channel_exchange_sender.send(send_to_us).await,
+            channel_exchange_sender
+                .send((send_to_us, channel_exchange_reply))
+                .await,
             Connection,
             "failed to connect to remote endpoint"
         );
+        drop(channel_exchange_sender);
 
         // Receive their channel
         let send_to_them = bail!(
@@ -96,17 +105,15 @@ impl Protocol for Memory {
     ) -> Result<Self::Listener> {
         // Create our channels
         let (send_to_us, receive_from_them) = unbounded();
-        let (send_to_them, receive_from_us) = unbounded();
 
         // Add to our listeners
         let mut listeners = LISTENERS.get_or_init(RwLock::default).write().await;
-        listeners.insert(bind_endpoint.to_string(), (send_to_us, receive_from_us));
+        listeners.insert(bind_endpoint.to_string(), send_to_us);
 
         // Return our listener as a u64 bind endpoint
         Ok(MemoryListener {
             bind_endpoint: bind_endpoint.to_string(),
             receive_new_connection: receive_from_them,
-            send_to_new_connection: send_to_them,
         })
     }
 }
@@ -134,8 +141,7 @@ impl UnfinalizedConnection for UnfinalizedMemoryConnection {
 /// so we can remove on drop.
 pub struct MemoryListener {
     bind_endpoint: String,
-    receive_new_connection: Receiver<DuplexStream>,
-    send_to_new_connection: Sender<DuplexStream>,
+    receive_new_connection: Receiver<ChannelExchange>,
 }
 
 #[async_trait]
@@ -147,34 +153,39 @@ impl Listener<UnfinalizedMemoryConnection> for MemoryListener {
     /// # Errors
     /// - If we fail to accept a connection from the listener.
     async fn accept(&self) -> Result<UnfinalizedMemoryConnection> {
-        // Accept a channel from the sender
-        let bytes_sender = bail!(
-            self.receive_new_connection.recv().await,
-            Connection,
-            "failed to accept remote connection"
-        );
-
-        // Create our bytes sender
-        let (send_bytes_to_us, bytes_receiver) = duplex(8192);
-
-        // Send the remote connection our channel
-        bail!(
-            self.send_to_new_connection.send(send_bytes_to_us).await,
-            Connection,
-            "failed to finalize connection"
-        );
-
-        // Return our unfinalized connection
-        Ok(UnfinalizedMemoryConnection {
-            send_stream: bytes_sender,
-            receive_stream: bytes_receiver,
-        })
+        loop {
+            // Accept a channel from the sender
+            let (bytes_sender, send_to_new_connection) = bail!(
+                self.receive_new_connection.recv().await,
+                Connection,
+                "failed to accept remote connection"
+            );
+
+            // Create our bytes sender
+            let (send_bytes_to_us, bytes_receiver) = duplex(8192);
+
+            // Send the remote connection our channel. If it is gone by now, there is nobody
+            // to accept: wait for the next one
+            if send_to_new_connection.send(send_bytes_to_us).await.is_err() {
+                continue;
+            }
+
+            // Return our unfinalized connection
+            return Ok(UnfinalizedMemoryConnection {
+                send_stream: bytes_sender,
+                receive_stream: bytes_receiver,
+            });
+        }
     }
 }
 
 /// On `Drop`, we want to remove ourself from the map of listeners.
 impl Drop for MemoryListener {
     fn drop(&mut self) {
+        // Turn away those that are still waiting for us to accept them
+        self.receive_new_connection.close();
+        while self.receive_new_connection.try_recv().is_ok() {}
+
         // Clone the bind endpoint so we can use it
         let bind_endpoint = self.bind_endpoint.clone();
 
-- 
2.43.0


From e9b2d4d08cee08a44a772b2460bd678539a34f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:41 +0000
Subject: [PATCH 18/19] fix: the heartbeat keeps its pace when the other
 brokers can't be listed

The loop went straight on to the next attempt without sleeping, so a failing
discovery store was asked again and again as fast as it could answer.
---
 cdn-broker/src/tasks/broker/heartbeat.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cdn-broker/src/tasks/broker/heartbeat.rs b/cdn-broker/src/tasks/broker/heartbeat.rs
index e7a8f5f..a065c97 100644
--- a/cdn-broker/src/tasks/broker/heartbeat.rs
+++ b/cdn-broker/src/tasks/broker/heartbeat.rs
@@ -49,18 +49,18 @@ impl<Def: RunDef> Inner<Def> {
                 }
             }
 
-            // Attempt to get all other brokers
+            // Attempt to get all other brokers. If we fail, try again with the next heartbeat
             let other_brokers =
                 match timeout(Duration::from_secs(5), discovery_client.get_other_brokers()).await {
                     Ok(Ok(brokers)) => brokers,
                     Ok(Err(err)) => {
                         error!("failed to get other brokers: {}", err);
-                        continue;
+                        HashSet::new()
                     }
                     Err(_) => {
                         // This is an important error
                         error!("timed out trying to get other brokers");
-                        continue;
+                        HashSet::new()
                     }
                 };
 
-- 
2.43.0


From 41cbd7d5100a61d61fa41184b6933d0b9d46fb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:03 +0000
Subject: [PATCH 19/19] fix: a failed accept doesn't stop the broker or the
 marshal

A connection aborted before it was accepted, or running out of file
descriptors, ended the listener task and with it the whole process.
---
 cdn-proto/src/connection/protocols/tcp.rs     | 41 ++++++++++++-------
 cdn-proto/src/connection/protocols/tcp_tls.rs | 19 +++------
 2 files changed, 31 insertions(+), 29 deletions(-)

diff --git a/cdn-proto/src/connection/protocols/tcp.rs b/cdn-proto/src/connection/protocols/tcp.rs
index c197481..ecfcddf 100644
--- a/cdn-proto/src/connection/protocols/tcp.rs
+++ b/cdn-proto/src/connection/protocols/tcp.rs
@@ -17,7 +17,8 @@ use rustls::pki_types::CertificateDer;
 use rustls::pki_types::PrivateKeyDer;
 use tokio::net::tcp::OwnedWriteHalf;
 use tokio::net::{TcpSocket, TcpStream};
-use tokio::time::timeout;
+use tokio::time::{sleep, timeout};
+use tracing::warn;
 
 use super::SoftClose;
 use super::{Connection, Listener, Protocol, UnfinalizedConnection};
@@ -143,28 +144,38 @@ impl UnfinalizedConnection for UnfinalizedTcpConnection {
 /// wrapper around `tokio::net::TcpListener`.
 pub struct TcpListener(pub tokio::net::TcpListener);
 
+/// Accept a stream from a TCP listener. Failing to do so is not the end of the listener: either it
+/// concerns only the connection that was to be accepted (e.g. it has been aborted), or we lack
+/// resources (e.g. file descriptors) for the time being. In both cases we just try again.
+pub(super) async fn accept_stream(listener: &tokio::net::TcpListener) -> TcpStream {
+    loop {
+        let result = match listener.accept().await {
+            Ok((stream, _)) => stream.set_nodelay(true).map(|()| stream),
+            Err(err) => Err(err),
+        };
+
+        match result {
+            Ok(stream) => return stream,
+            Err(err) => {
+                warn!("failed to accept connection: {err}");
+                sleep(Duration::from_millis(100)).await;
+            }
+        }
+    }
+}
+
 #[async_trait]
 impl Listener<UnfinalizedTcpConnection> for TcpListener {
     /// Accept an unfinalized connection from the listener.
     ///
     /// # Errors
-    /// - If we fail to accept a connection from the listener.
+    /// Does not actually error, but satisfies trait bounds.
     async fn accept(&self) -> Result<UnfinalizedTcpConnection> {
-        // Try to accept a connection from the underlying endpoint
-        // Split into reader and writer half
-        let connection = bail!(
-            self.0.accept().await,
-            Connection,
-            "failed to accept connection"
-        );
-        bail!(
-            connection.0.set_nodelay(true),
-            Connection,
-            "failed to set nodelay"
-        );
+        // Accept a connection from the underlying endpoint
+        let stream = accept_stream(&self.0).await;
 
         // Return the unfinalized connection
-        Ok(UnfinalizedTcpConnection(connection.0))
+        Ok(UnfinalizedTcpConnection(stream))
     }
 }
 
diff --git a/cdn-proto/src/connection/protocols/tcp_tls.rs b/cdn-proto/src/connection/protocols/tcp_tls.rs
index c97198d..cdf2e21 100644
--- a/cdn-proto/src/connection/protocols/tcp_tls.rs
+++ b/cdn-proto/src/connection/protocols/tcp_tls.rs
@@ -25,6 +25,7 @@ use tokio::time::timeout;
 use tokio_rustls::TlsAcceptor;
 use tokio_rustls::TlsConnector;
 
+use super::tcp::accept_stream;
 use super::SoftClose;
 use super::{Connection, Listener, Protocol, UnfinalizedConnection};
 use crate::connection::limiter::Limiter;
@@ -226,24 +227,14 @@ impl Listener<UnfinalizedTcpTlsConnection> for TcpTlsListener {
     /// Accept an unfinalized connection from the listener.
     ///
     /// # Errors
-    /// - If we fail to accept a connection from the listener.
+    /// Does not actually error, but satisfies trait bounds.
     async fn accept(&self) -> Result<UnfinalizedTcpTlsConnection> {
-        // Try to accept a connection from the underlying endpoint
-        // Split into reader and writer half
-        let connection = bail!(
-            self.tcp_listener.accept().await,
-            Connection,
-            "failed to accept connection"
-        );
-        bail!(
-            connection.0.set_nodelay(true),
-            Connection,
-            "failed to set nodelay"
-        );
+        // Accept a connection from the underlying endpoint
+        let tcp_stream = accept_stream(&self.tcp_listener).await;
 
         // Return the unfinalized connection
         Ok(UnfinalizedTcpTlsConnection {
-            tcp_stream: connection.0,
+            tcp_stream,
             tls_acceptor: self.tls_acceptor.clone(),
         })
     }
-- 
2.43.0

