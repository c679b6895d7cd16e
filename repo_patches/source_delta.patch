From 42468040ec4c85357b40875097f3d05f1e16eeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:09 +0000
Subject: [PATCH 01/24] fix: decode a packet only from its own bytes

Strings and payloads shorter than announced were accepted, fields could be read
from the following packet, inconsistent lengths underflowed, and bytes left
over at the end of a packet were ignored.
---
 src/packets/mod.rs   | 20 +++++++++++++++-----
 src/packets/utils.rs | 12 +++++++++++-
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/packets/mod.rs b/src/packets/mod.rs
index 4edc732..123add5 100644
--- a/src/packets/mod.rs
+++ b/src/packets/mod.rs
@@ -613,10 +613,8 @@ impl VariableHeader {
                 len -= size_of::<u16>();
 
                 while len > 0 {
-                    len -= size_of::<u16>();
-
                     let topic = unpack_string(iter)?;
-                    len -= topic.len();
+                    len -= size_of::<u16>() + topic.len();
 
                     tuples.push(topic);
                 }
@@ -819,9 +817,21 @@ impl Packet {
 
         let fixed = FixedHeader::from_bytes(&mut iter, None)?;
 
-        let len = fixed.get_remaing_len() + fixed.get_rl_len() + 1;
+        let header_len = fixed.get_rl_len() + 1;
+        let len = fixed.get_remaing_len() + header_len;
+
+        // A packet consists of exactly the bytes its remaining length announces.
+        let mut body = bytes
+            .get(header_len..len)
+            .ok_or(MqttError::RequiredByteMissing("Packet is incomplete"))?
+            .iter();
+
+        let variable = VariableHeader::unpack(&mut body, &fixed, protocal)?;
+
+        if body.next().is_some() {
+            return Err(MqttError::MalformedRemaingLength);
+        }
 
-        let variable = VariableHeader::unpack(&mut iter, &fixed, protocal)?;
         Ok((Self { fixed, variable }, len))
     }
 }
diff --git a/src/packets/utils.rs b/src/packets/utils.rs
index b6e5fb4..cb01ed7 100644
--- a/src/packets/utils.rs
+++ b/src/packets/utils.rs
@@ -83,7 +83,13 @@ pub fn unpack_bytes<'a, I>(iter: &mut I, len: usize) -> Result<bytes::Bytes, Mqt
 where
     I: Iterator<Item = &'a u8>,
 {
-    Ok(Bytes::from_iter(iter.take(len).copied()))
+    let bytes = Bytes::from_iter(iter.take(len).copied());
+
+    if bytes.len() != len {
+        return Err(MqttError::RequiredByteMissing("Missing payload byte(s)"));
+    }
+
+    Ok(bytes)
 }
 
 pub fn unpack_string_with_len<'a, I>(iter: &mut I, len: usize) -> Result<String, MqttError>
@@ -96,6 +102,10 @@ where
 
     let chars: Vec<u8> = iter.take(len).copied().collect();
 
+    if chars.len() != len {
+        return Err(MqttError::RequiredByteMissing("Missing string byte(s)"));
+    }
+
     let result = String::from_utf8(chars).map_err(MqttError::MalformedString)?;
 
     Ok(result)
-- 
2.43.0


From dcbd9aeea1be1509c6e58db4149d9a5e25e2484e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:10 +0000
Subject: [PATCH 02/24] fix: count only the length field's own bytes in
 encode_length

The fixed header byte already in the buffer was counted too, so the fourth
byte of lengths above 2097151 was never written.
---
 src/packets/utils.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/packets/utils.rs b/src/packets/utils.rs
index cb01ed7..7069821 100644
--- a/src/packets/utils.rs
+++ b/src/packets/utils.rs
@@ -143,8 +143,10 @@ where
 
 pub fn encode_length(len: usize, bytes: &mut BytesMut) {
     let mut mlen = len;
+    // The buffer may already hold other data: count only the bytes of the length field.
+    let start = bytes.len();
     loop {
-        if bytes.len() + 1 > MAX_ENCODED_BYTES {
+        if bytes.len() - start + 1 > MAX_ENCODED_BYTES {
             return;
         }
 
-- 
2.43.0


From e7f639e542a9760ed02b0294d37870310b7f9d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:12 +0000
Subject: [PATCH 03/24] fix: refuse packets with wrong reserved flag bits

---
 src/packets/headers/fixed_header.rs | 12 ++++++++++++
 src/packets/mod.rs                  | 11 +++++++----
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/packets/headers/fixed_header.rs b/src/packets/headers/fixed_header.rs
index 50fa549..2fce469 100644
--- a/src/packets/headers/fixed_header.rs
+++ b/src/packets/headers/fixed_header.rs
@@ -141,6 +141,18 @@ impl FixedHeader {
     pub fn get_retain(&self) -> bool {
         self.flags & 0x01 == 1
     }
+    /// Whether the flag bits have the value required for the packet type.
+    ///
+    /// [(MQTT 3.1.1) 2.2.2 Flags](http://docs.oasis-open.org/mqtt/mqtt/v3.1.1/errata01/os/mqtt-v3.1.1-errata01-os-complete.html#_Toc442180832)
+    pub fn has_valid_flags(&self, packet_type: &PacketType) -> bool {
+        match packet_type {
+            PacketType::Publish => self.get_qos().is_ok(),
+            PacketType::Pubrel | PacketType::Subscribe | PacketType::Unsubscribe => {
+                self.flags & 0x0F == 0x02
+            }
+            _ => self.flags & 0x0F == 0x00,
+        }
+    }
     pub fn get_remaing_len(&self) -> usize {
         self.remaining_len
     }
diff --git a/src/packets/mod.rs b/src/packets/mod.rs
index 123add5..5018e89 100644
--- a/src/packets/mod.rs
+++ b/src/packets/mod.rs
@@ -342,7 +342,13 @@ impl VariableHeader {
     where
         I: Iterator<Item = &'a u8>,
     {
-        match fixed.get_packet_type()? {
+        let packet_type = fixed.get_packet_type()?;
+
+        if !fixed.has_valid_flags(&packet_type) {
+            return Err(MqttError::MalformedHeader);
+        }
+
+        match packet_type {
             PacketType::Connect => {
                 //  ===== Start Connect header =======
 
@@ -543,9 +549,6 @@ impl VariableHeader {
                 })
             }
             PacketType::Subscribe => {
-                if !fixed.get_dup() && fixed.get_qos()? != QosLevel::AtLeast && fixed.get_retain() {
-                    return Err(MqttError::MalformedHeader);
-                }
                 let mut len = fixed.get_remaing_len();
 
                 // # Variable header
-- 
2.43.0


From 840d01b867876092ac88b531f031069cea100168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:13 +0000
Subject: [PATCH 04/24] fix: refuse UNSUBSCRIBE without filters and invalid
 PUBLISH topics

---
 src/packets/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/packets/mod.rs b/src/packets/mod.rs
index 5018e89..0fdddef 100644
--- a/src/packets/mod.rs
+++ b/src/packets/mod.rs
@@ -481,6 +481,11 @@ impl VariableHeader {
             PacketType::Publish => {
                 let topic = unpack_string(iter)?;
 
+                // A topic name is not empty and does not contain wildcard characters
+                if topic.is_empty() || topic.contains(['+', '#']) {
+                    return Err(MqttError::ProtocolViolation);
+                }
+
                 /*
                  * Message len is calculated subtracting the length of the variable header
                  * from the Remaining Length field that is in the Fixed Header
@@ -622,6 +627,10 @@ impl VariableHeader {
                     tuples.push(topic);
                 }
 
+                if tuples.is_empty() {
+                    return Err(MqttError::ProtocolViolation);
+                }
+
                 Ok(Self::Unsubscribe {
                     packet_id,
                     tuples,
-- 
2.43.0


From 25dbacb14f34ee7548f2e7d0881799ee9d763169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:14 +0000
Subject: [PATCH 05/24] fix: refuse inconsistent CONNECT flags

---
 src/packets/headers/connect.rs | 12 ++++++++++++
 src/packets/mod.rs             |  2 +-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/packets/headers/connect.rs b/src/packets/headers/connect.rs
index ac94af9..10889f3 100644
--- a/src/packets/headers/connect.rs
+++ b/src/packets/headers/connect.rs
@@ -33,6 +33,18 @@ impl Flags {
         self.0 & 0x1 == 1
     }
 
+    /// The will QoS has to be valid and, like will retain, zero without a will;
+    /// a password requires a username.
+    pub fn are_consistent(&self) -> bool {
+        match self.will_qos() {
+            Ok(qos) => {
+                (self.will() || (qos == QosLevel::AtMost && !self.will_retain()))
+                    && (self.has_username() || !self.has_password())
+            }
+            Err(_) => false,
+        }
+    }
+
     /// #### Clean Start or Clean Session
     /// This bit specifies whether the Connection starts a new Session or is a continuation of an existing Session.
     pub fn clean_session(&self) -> bool {
diff --git a/src/packets/mod.rs b/src/packets/mod.rs
index 0fdddef..c8241e9 100644
--- a/src/packets/mod.rs
+++ b/src/packets/mod.rs
@@ -374,7 +374,7 @@ impl VariableHeader {
                         .ok_or_else(|| MqttError::RequiredByteMissing("Missing connect flags"))?,
                 );
 
-                if flags.validate_flags() {
+                if flags.validate_flags() || !flags.are_consistent() {
                     return Err(MqttError::MalformedHeader);
                 }
 
-- 
2.43.0


From cf2afb43dc94a39358f529028755f37d535c0eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:16 +0000
Subject: [PATCH 06/24] fix: accept binary will messages and passwords

Both are binary data in MQTT 3.1.1; requiring UTF-8 refused valid CONNECTs.
---
 src/packets/mod.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/packets/mod.rs b/src/packets/mod.rs
index c8241e9..cbdeac3 100644
--- a/src/packets/mod.rs
+++ b/src/packets/mod.rs
@@ -70,9 +70,9 @@ pub enum VariableHeader {
 
         client_id: String,
         username: Option<String>,
-        password: Option<String>,
+        password: Option<Bytes>,
         will_topic: Option<String>,
-        will_message: Option<String>,
+        will_message: Option<Bytes>,
         protocol_version: ProtocalVersion,
 
         session_expiry_interval: Option<u32>,
@@ -248,7 +248,7 @@ impl VariableHeader {
                     }
                     if let Some(wm) = will_message {
                         bytes.put_u16(wm.len() as u16);
-                        bytes.put(wm.as_bytes());
+                        bytes.put(wm);
                     }
                 }
 
@@ -262,7 +262,7 @@ impl VariableHeader {
                 if has_psd {
                     if let Some(psd) = password {
                         bytes.put_u16(psd.len() as u16);
-                        bytes.put(psd.as_bytes());
+                        bytes.put(psd);
                     }
                 }
             }
@@ -410,7 +410,9 @@ impl VariableHeader {
                     };
 
                     let will_topic = unpack_string(iter)?;
-                    let will_payload = unpack_string(iter)?;
+                    // The will message is binary data, not a string
+                    let will_len = usize::from(unpack_u16(iter)?);
+                    let will_payload = unpack_bytes(iter, will_len)?;
 
                     (Some(will_topic), Some(will_payload), props)
                 } else {
@@ -423,8 +425,10 @@ impl VariableHeader {
                     None
                 };
 
+                // The password is binary data, not a string
                 let password = if flags.has_password() {
-                    Some(unpack_string(iter)?)
+                    let len = usize::from(unpack_u16(iter)?);
+                    Some(unpack_bytes(iter, len)?)
                 } else {
                     None
                 };
-- 
2.43.0


From c281f4f1c9cb36572a5fcb8e970c7b24f66e4a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:30 +0000
Subject: [PATCH 07/24] fix: match '+' filters when a literal filter shares the
 level

---
 src/topic_heir.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/topic_heir.rs b/src/topic_heir.rs
index dca804c..be8e4aa 100644
--- a/src/topic_heir.rs
+++ b/src/topic_heir.rs
@@ -116,13 +116,14 @@ impl SubHier {
 
     pub fn get(
         &self,
-        iter: &mut impl std::iter::Iterator<Item = String>,
+        iter: &mut (impl std::iter::Iterator<Item = String> + Clone),
         subscribers: &mut Vec<(u128, Sender<ClientEvent>, QosLevel)>,
         share: &Option<String>,
     ) {
         if let Some(topic) = iter.next() {
+            // both branches have to see the remaining levels
             if let Some(child) = self.children.get(&topic) {
-                child.get(iter, subscribers, share);
+                child.get(&mut iter.clone(), subscribers, share);
             }
 
             if let Some(child) = self.children.get("+") {
@@ -212,7 +213,7 @@ impl SubscriptionTree {
 
         if let Some(topic) = iter.next() {
             if let Some(child) = self.0.get(&topic) {
-                child.get(&mut iter, &mut subscribers, &sharename);
+                child.get(&mut iter.clone(), &mut subscribers, &sharename);
             }
             // single level '+' match
             if let Some(child) = self.0.get("+") {
-- 
2.43.0


From 5c3a71bab197be35dc60497e9c37d1d18afeedcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:53 +0000
Subject: [PATCH 08/24] fix: grant overlapping subscriptions the highest qos

---
 src/topic_heir.rs | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/topic_heir.rs b/src/topic_heir.rs
index be8e4aa..a8c1a05 100644
--- a/src/topic_heir.rs
+++ b/src/topic_heir.rs
@@ -132,16 +132,12 @@ impl SubHier {
         } else if let Some(share) = share {
             if let Some(s) = self.shared.get(share) {
                 for x in s.iter() {
-                    if !subscribers.iter().any(|e| e.0 == x.identifier) {
-                        subscribers.push((x.identifier, x.bridge.clone(), x.qos));
-                    }
+                    add_subscriber(subscribers, x);
                 }
             }
         } else {
             for x in &self.subs {
-                if !subscribers.iter().any(|e| e.0 == x.identifier) {
-                    subscribers.push((x.identifier, x.bridge.clone(), x.qos));
-                }
+                add_subscriber(subscribers, x);
             }
         }
 
@@ -149,22 +145,30 @@ impl SubHier {
             if let Some(share) = share {
                 if let Some(s) = child.shared.get(share) {
                     for x in s.iter() {
-                        if !subscribers.iter().any(|e| e.0 == x.identifier) {
-                            subscribers.push((x.identifier, x.bridge.clone(), x.qos));
-                        }
+                        add_subscriber(subscribers, x);
                     }
                 }
             } else {
                 for x in &child.subs {
-                    if !subscribers.iter().any(|e| e.0 == x.identifier) {
-                        subscribers.push((x.identifier, x.bridge.clone(), x.qos));
-                    }
+                    add_subscriber(subscribers, x);
                 }
             }
         }
     }
 }
 
+/// Selects a subscriber once, with the highest qos of its matching subscriptions
+fn add_subscriber(
+    subscribers: &mut Vec<(u128, Sender<ClientEvent>, QosLevel)>,
+    sub: &SubscriptionLeaf,
+) {
+    match subscribers.iter_mut().find(|e| e.0 == sub.identifier) {
+        Some(e) if (e.2 as u8) < sub.qos as u8 => e.2 = sub.qos,
+        Some(_) => {}
+        None => subscribers.push((sub.identifier, sub.bridge.clone(), sub.qos)),
+    }
+}
+
 #[derive(Debug)]
 pub struct SubscriptionTree(DashMap<String, SubHier>);
 
@@ -226,16 +230,12 @@ impl SubscriptionTree {
             if let Some(share) = sharename {
                 if let Some(s) = child.shared.get(&share) {
                     for x in s.iter() {
-                        if !subscribers.iter().any(|e| e.0 == x.identifier) {
-                            subscribers.push((x.identifier, x.bridge.clone(), x.qos));
-                        }
+                        add_subscriber(&mut subscribers, x);
                     }
                 }
             } else {
                 for x in &child.subs {
-                    if !subscribers.iter().any(|e| e.0 == x.identifier) {
-                        subscribers.push((x.identifier, x.bridge.clone(), x.qos));
-                    }
+                    add_subscriber(&mut subscribers, x);
                 }
             }
         }
-- 
2.43.0


From 961cbbaf8e174f9ed60b147927bea8dffdf91e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:54 +0000
Subject: [PATCH 09/24] fix: keep leading wildcards from matching topics that
 start with '$'

---
 src/topic_heir.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/topic_heir.rs b/src/topic_heir.rs
index a8c1a05..3b829d0 100644
--- a/src/topic_heir.rs
+++ b/src/topic_heir.rs
@@ -219,6 +219,10 @@ impl SubscriptionTree {
             if let Some(child) = self.0.get(&topic) {
                 child.get(&mut iter.clone(), &mut subscribers, &sharename);
             }
+            // a leading wildcard does not match topics that start with '$'
+            if topic.starts_with('$') {
+                return Ok(subscribers);
+            }
             // single level '+' match
             if let Some(child) = self.0.get("+") {
                 child.get(&mut iter, &mut subscribers, &sharename);
-- 
2.43.0


From c45dfbf5f8f416c8a204d8d9f7f5aeaa7d725a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:55 +0000
Subject: [PATCH 10/24] fix: refuse invalid topic filters

---
 src/topic_heir.rs |  3 +++
 src/utils.rs      | 16 ++++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/src/topic_heir.rs b/src/topic_heir.rs
index 3b829d0..8b3e11a 100644
--- a/src/topic_heir.rs
+++ b/src/topic_heir.rs
@@ -177,6 +177,9 @@ impl SubscriptionTree {
         Self(DashMap::new())
     }
     pub fn insert(&mut self, filter: String, sub: SubscriptionLeaf) -> Result<(), u8> {
+        if !utils::is_valid_filter(&filter) {
+            return Err(1);
+        }
         let (filter_list, sharename) = utils::tokenise_topic(filter)?;
 
         let mut iter = filter_list.into_iter();
diff --git a/src/utils.rs b/src/utils.rs
index 0ade54f..ff0931d 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -20,6 +20,22 @@ pub fn tokenise_topic(value: String) -> Result<(Vec<String>, Option<String>), u8
     Ok((topic.iter().map(|x| x.to_string()).collect(), sharename))
 }
 
+/// A filter is not empty, '+' occupies a whole level and '#' the whole last level
+pub fn is_valid_filter(value: &str) -> bool {
+    let mut levels = value.split('/').peekable();
+    while let Some(level) = levels.next() {
+        let valid = match level {
+            "+" => true,
+            "#" => levels.peek().is_none(),
+            _ => !level.contains(['+', '#']),
+        };
+        if !valid {
+            return false;
+        }
+    }
+    !value.is_empty()
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 7af77b1b074b78c33776a8e53c6e8fb68964eab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:32 +0000
Subject: [PATCH 11/24] fix: write outgoing packets completely

---
 src/handler.rs | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/handler.rs b/src/handler.rs
index 5088d23..c0ec408 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -82,8 +82,8 @@ where
                                 // The Server MUST process a second CONNECT Packet sent from a Client as a protocol violation and disconnect the Client
                                 let resp = Packet::make_connack(ConnectReturnCode::V4UnacceptableProtocal,false);
 
-                                let len = writer.write(&resp).await?;
-                                debug!("Wrote {} bytes", len);
+                                writer.write_all(&resp).await?;
+                                debug!("Wrote {} bytes", resp.len());
 
                                 break 'ctrl;
                             }
@@ -113,8 +113,8 @@ where
 
                           let resp = Packet::make_connack(ConnectReturnCode::Accepted,false);
 
-                          let len = writer.write(&resp).await?;
-                          debug!("Wrote {} bytes", len);
+                          writer.write_all(&resp).await?;
+                          debug!("Wrote {} bytes", resp.len());
                         },
                         VariableHeader::Subscribe { packet_id, tuples,.. } => {
                             let id = cid.as_ref().ok_or_else(|| MqttError::FailedToGetCId)?;
@@ -137,8 +137,8 @@ where
 
                             let resp = Packet::make_suback(packet_id, codes);
 
-                            let len = writer.write(&resp).await?;
-                            debug!("Wrote {} bytes", len);
+                            writer.write_all(&resp).await?;
+                            debug!("Wrote {} bytes", resp.len());
                         },
                         VariableHeader::Unsubscribe { packet_id, tuples, .. } => {
                             let id = cid.as_ref().ok_or_else(|| MqttError::FailedToGetCId)?;
@@ -161,8 +161,8 @@ where
                             r_rx.await.map_err(|_| MqttError::QueuePoisonError)??;
 
                             let resp = Packet::make_unsuback(packet_id);
-                            let len = writer.write(&resp).await?;
-                            debug!("Wrote {} bytes", len);
+                            writer.write_all(&resp).await?;
+                            debug!("Wrote {} bytes", resp.len());
                         },
                         VariableHeader::Publish { topic, packet_id, payload, .. } => {
                             message_bridge
@@ -188,26 +188,26 @@ where
                             };
 
                             if let Some(resp) = data {
-                                let len = writer.write(&resp).await?;
-                                debug!("Wrote {} bytes", len);
+                                writer.write_all(&resp).await?;
+                                debug!("Wrote {} bytes", resp.len());
                             }
                         }
                         VariableHeader::PubRec { packet_id, .. } => {
                             let resp = Packet::make_pubrel(packet_id);
-                            let len = writer.write(&resp).await?;
-                            debug!("Wrote {} bytes", len);
+                            writer.write_all(&resp).await?;
+                            debug!("Wrote {} bytes", resp.len());
                         },
                         VariableHeader::PubRel { packet_id, .. } => {
                             let resp = Packet::make_pubcomp(packet_id);
-                            let len = writer.write(&resp).await?;
-                            debug!("Wrote {} bytes", len);
+                            writer.write_all(&resp).await?;
+                            debug!("Wrote {} bytes", resp.len());
                         },
                         VariableHeader::PubComp { packet_id: _, ..} | VariableHeader::PubAck { packet_id: _, .. } => {}
                         VariableHeader::PingReq => {
                             keepalive_timer.as_mut().reset(Instant::now() + Duration::from_secs(keepalive_duration));
                             let resp = Packet::make_ping_resp();
-                            let len = writer.write(&resp).await?;
-                            debug!("Wrote {} bytes", len);
+                            writer.write_all(&resp).await?;
+                            debug!("Wrote {} bytes", resp.len());
                         },
                         VariableHeader::Disconnect { .. } => {
                             debug!("Disconnect Called");
@@ -232,8 +232,8 @@ where
                 if let Some(ev) = event {
                     match ev {
                         ClientEvent::Message(msg) => {
-                            let len = writer.write(&msg).await?;
-                            debug!("Wrote {} bytes",len);
+                            writer.write_all(&msg).await?;
+                            debug!("Wrote {} bytes", msg.len());
                         },
                         ClientEvent::Disconnect => break 'ctrl,
                     }
-- 
2.43.0


From 43810265b0d27bd1aa8e1eabd01aad82b83f562e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:34 +0000
Subject: [PATCH 12/24] fix: end the connection when the peer closes it

---
 src/handler.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/handler.rs b/src/handler.rs
index c0ec408..8bb54bf 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -56,7 +56,8 @@ where
                     Ok(bytes) => {
                         let len = bytes.len();
                         if len == 0 {
-                            continue;
+                            debug!("Connection closed by peer");
+                            break 'ctrl;
                         }
                         let (packet, packet_size) = Packet::unpack(bytes, protocol)?;
                         broker_info::sent_data(packet_size);
-- 
2.43.0


From 12da350e107a10433bb2e32066ac47680ccd4e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:36 +0000
Subject: [PATCH 13/24] fix: count a client as gone when its connection ends in
 an error

---
 src/handler.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/handler.rs b/src/handler.rs
index 8bb54bf..b5ab0b1 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -23,7 +23,7 @@ use crate::{
 
 pub async fn client_handler<R, W>(
     read_stream: R,
-    mut writer: W,
+    writer: W,
     message_bridge: Sender<Command>,
     cancellation: CancellationToken,
 ) -> Result<(), MqttError>
@@ -32,7 +32,24 @@ where
     R: AsyncRead + Unpin,
 {
     broker_info::client_inc();
+    let result = handle_client(read_stream, writer, message_bridge, cancellation).await;
+    broker_info::client_dec();
+
+    debug!("Client: disconnect");
+
+    result
+}
 
+async fn handle_client<R, W>(
+    read_stream: R,
+    mut writer: W,
+    message_bridge: Sender<Command>,
+    cancellation: CancellationToken,
+) -> Result<(), MqttError>
+where
+    W: AsyncWrite + Unpin,
+    R: AsyncRead + Unpin,
+{
     let mut keepalive_duration: u64 = 60;
     let mut has_connected = false;
     let mut protocol = ProtocalVersion::Unknown;
@@ -244,9 +261,5 @@ where
         }
     }
 
-    broker_info::client_dec();
-
-    debug!("Client: disconnect");
-
     Ok(())
 }
-- 
2.43.0


From f9354c897716dc0a6a0af396d251febc3b1e8ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:38 +0000
Subject: [PATCH 14/24] fix: refuse packets before CONNECT

---
 src/handler.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/handler.rs b/src/handler.rs
index b5ab0b1..dc20c81 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -92,6 +92,11 @@ where
                     }
                 };
 
+                // the first packet of a connection must be CONNECT
+                if !has_connected && !matches!(packet.variable, VariableHeader::Connect { .. }) {
+                    return Err(MqttError::ProtocolViolation);
+                }
+
                 match packet.variable {
                         VariableHeader::Connect { flags, keepalive, client_id, protocol_version, .. } => {
                             if has_connected {
-- 
2.43.0


From 3c23affd1a0f48a12f37fcb4d274e21f471f6a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:56 +0000
Subject: [PATCH 15/24] fix: handle packets however the stream is cut into
 reads

---
 src/handler.rs     | 49 ++++++++++++++++++++++++++++++++--------------
 src/packets/mod.rs | 15 +++++++++++++-
 2 files changed, 48 insertions(+), 16 deletions(-)

diff --git a/src/handler.rs b/src/handler.rs
index dc20c81..d7d1c94 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -1,8 +1,9 @@
 use std::time::Duration;
 
+use bytes::{Bytes, BytesMut};
 use log::{debug, error};
 use tokio::{
-    io::{AsyncBufReadExt, AsyncRead, AsyncWrite, AsyncWriteExt},
+    io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt},
     select,
     sync::mpsc::{channel, Sender},
     time::Instant,
@@ -40,8 +41,28 @@ where
     result
 }
 
+/// Reads one whole packet, or None when the peer has closed the connection.
+///
+/// Cancel safe: what has been read of an incomplete packet stays in `buffer`.
+async fn read_packet<R>(reader: &mut R, buffer: &mut BytesMut) -> Result<Option<Bytes>, MqttError>
+where
+    R: AsyncRead + Unpin,
+{
+    loop {
+        if let Some(size) = Packet::size(buffer)? {
+            if buffer.len() >= size {
+                return Ok(Some(buffer.split_to(size).freeze()));
+            }
+        }
+
+        if reader.read_buf(buffer).await? == 0 {
+            return Ok(None);
+        }
+    }
+}
+
 async fn handle_client<R, W>(
-    read_stream: R,
+    mut reader: R,
     mut writer: W,
     message_bridge: Sender<Command>,
     cancellation: CancellationToken,
@@ -55,7 +76,7 @@ where
     let mut protocol = ProtocalVersion::Unknown;
     let mut cid = None;
     let keepalive_timer = tokio::time::sleep(Duration::from_secs(60));
-    let mut reader = tokio::io::BufReader::new(read_stream);
+    let mut buffer = BytesMut::with_capacity(8 * 1024);
     let (tx, mut rx) = channel::<ClientEvent>(100);
 
     tokio::pin!(keepalive_timer);
@@ -68,27 +89,25 @@ where
             () = &mut keepalive_timer => {
                 break 'ctrl;
             }
-            buffer = reader.fill_buf() => {
-                let packet = match buffer {
-                    Ok(bytes) => {
-                        let len = bytes.len();
-                        if len == 0 {
-                            debug!("Connection closed by peer");
-                            break 'ctrl;
-                        }
-                        let (packet, packet_size) = Packet::unpack(bytes, protocol)?;
+            received = read_packet(&mut reader, &mut buffer) => {
+                let packet = match received {
+                    Ok(Some(bytes)) => {
+                        let (packet, packet_size) = Packet::unpack(&bytes, protocol)?;
                         broker_info::sent_data(packet_size);
 
-                        reader.consume(packet_size);
                         packet
                     }
-                    Err(ref e) if e.kind() == std::io::ErrorKind::ConnectionReset || e.kind() == std::io::ErrorKind::ConnectionReset => {
+                    Ok(None) => {
+                        debug!("Connection closed by peer");
+                        break 'ctrl;
+                    }
+                    Err(MqttError::Io(ref e)) if e.kind() == std::io::ErrorKind::ConnectionReset || e.kind() == std::io::ErrorKind::ConnectionReset => {
                         debug!("Connection lost");
                         break 'ctrl;
                     }
                     Err(err) => {
                         error!("{}",err);
-                        return Err(MqttError::Io(err));
+                        return Err(err);
                     }
                 };
 
diff --git a/src/packets/mod.rs b/src/packets/mod.rs
index cbdeac3..019a0bf 100644
--- a/src/packets/mod.rs
+++ b/src/packets/mod.rs
@@ -11,7 +11,7 @@ use crate::{
 use self::{
     enums::{ConnectReturnCode, QosLevel, SubackReturnCode},
     headers::{connack::AcknowledgeFlags, connect::Flags},
-    utils::{encode_length, unpack_bytes, unpack_properties, unpack_string, unpack_u16},
+    utils::{decode_length, encode_length, unpack_bytes, unpack_properties, unpack_string, unpack_u16},
 };
 
 #[repr(u8)]
@@ -828,6 +828,19 @@ impl Packet {
 
         buffer.freeze()
     }
+    /// The size of the packet that `bytes` starts with, None while its fixed header is incomplete.
+    pub fn size(bytes: &[u8]) -> Result<Option<usize>, MqttError> {
+        let length = bytes.get(1..).unwrap_or_default();
+
+        if length.len() < 4 && length.iter().all(|byte| byte & 128 != 0) {
+            return Ok(None);
+        }
+
+        let (remaining_len, length_bytes) = decode_length(&mut length.iter())?;
+
+        Ok(Some(1 + length_bytes + remaining_len))
+    }
+
     pub fn unpack(bytes: &[u8], protocal: ProtocalVersion) -> Result<(Self, usize), MqttError> {
         let mut iter = bytes.iter();
 
-- 
2.43.0


From d0af0eeacc0a9f78a3b797e9c362fd10c650dade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:18 +0000
Subject: [PATCH 16/24] fix: restart the keep alive timer on every packet, and
 turn it off for zero

---
 src/handler.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/handler.rs b/src/handler.rs
index d7d1c94..71b234a 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -86,7 +86,8 @@ where
             () = cancellation.cancelled() => {
                 break 'ctrl;
             }
-            () = &mut keepalive_timer => {
+            // a keep alive of zero turns the timeout off
+            () = &mut keepalive_timer, if keepalive_duration > 0 => {
                 break 'ctrl;
             }
             received = read_packet(&mut reader, &mut buffer) => {
@@ -116,6 +117,11 @@ where
                     return Err(MqttError::ProtocolViolation);
                 }
 
+                // every packet shows that the client is alive
+                if has_connected {
+                    keepalive_timer.as_mut().reset(Instant::now() + Duration::from_secs(keepalive_duration));
+                }
+
                 match packet.variable {
                         VariableHeader::Connect { flags, keepalive, client_id, protocol_version, .. } => {
                             if has_connected {
@@ -150,7 +156,7 @@ where
 
                           r_rx.await.map_err(|_| MqttError::QueuePoisonError)??;
                           has_connected = true;
-                          keepalive_duration = (keepalive as u64) + 4;
+                          keepalive_duration = if keepalive == 0 { 0 } else { (keepalive as u64) + 4 };
                           keepalive_timer.as_mut().reset(Instant::now() + Duration::from_secs(keepalive_duration));
 
                           let resp = Packet::make_connack(ConnectReturnCode::Accepted,false);
@@ -246,7 +252,6 @@ where
                         },
                         VariableHeader::PubComp { packet_id: _, ..} | VariableHeader::PubAck { packet_id: _, .. } => {}
                         VariableHeader::PingReq => {
-                            keepalive_timer.as_mut().reset(Instant::now() + Duration::from_secs(keepalive_duration));
                             let resp = Packet::make_ping_resp();
                             writer.write_all(&resp).await?;
                             debug!("Wrote {} bytes", resp.len());
-- 
2.43.0


From 8088c5f472fa05b3b8fe5d7e1bf101891287ebf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:42 +0000
Subject: [PATCH 17/24] fix: deliver messages at the lower qos, with packet
 identifiers

---
 src/core/enums.rs |  7 ++++++-
 src/core/mod.rs   | 19 ++++++++++---------
 src/handler.rs    | 18 ++++++++++++++++--
 src/main.rs       |  6 +++++-
 4 files changed, 37 insertions(+), 13 deletions(-)

diff --git a/src/core/enums.rs b/src/core/enums.rs
index fe5da56..37a952a 100644
--- a/src/core/enums.rs
+++ b/src/core/enums.rs
@@ -25,6 +25,7 @@ pub enum Command {
 
     Publish {
         topic: String,
+        qos: QosLevel,
         payload: Bytes,
     },
     Unsubscribe {
@@ -38,7 +39,11 @@ pub enum Command {
 
 #[derive(Debug)]
 pub enum ClientEvent {
-    Message(Bytes),
+    Message {
+        topic: String,
+        qos: QosLevel,
+        payload: Bytes,
+    },
     Disconnect,
 }
 #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
diff --git a/src/core/mod.rs b/src/core/mod.rs
index 61f2080..f8c2a9c 100644
--- a/src/core/mod.rs
+++ b/src/core/mod.rs
@@ -6,10 +6,7 @@ use tokio::sync::mpsc::Sender;
 
 use crate::{
     error::MqttError,
-    packets::{
-        enums::{QosLevel, SubackReturnCode},
-        Packet,
-    },
+    packets::enums::{QosLevel, SubackReturnCode},
     topic_heir::{SubscriptionLeaf, SubscriptionTree},
 };
 
@@ -135,7 +132,7 @@ impl App {
         self.sessions.remove(&cid);
     }
 
-    pub async fn publish(&self, topic: String, payload: Bytes) {
+    pub async fn publish(&self, topic: String, qos: QosLevel, payload: Bytes) {
         let subs = match self.subscriptions.get(topic.clone()) {
             Ok(subs) => subs,
             Err(_) => {
@@ -143,10 +140,14 @@ impl App {
             }
         };
 
-        for (_, bridge, qos) in subs {
-            let packet =
-                Packet::make_publish(false, qos, false, topic.clone(), None, payload.clone());
-            if let Err(e) = bridge.send(ClientEvent::Message(packet)).await {
+        for (_, bridge, granted) in subs {
+            let message = ClientEvent::Message {
+                topic: topic.clone(),
+                // a message is delivered at the lower of its own and the granted qos
+                qos: qos.min(granted),
+                payload: payload.clone(),
+            };
+            if let Err(e) = bridge.send(message).await {
                 log::error!("receiver dropped: {}", e);
             }
         }
diff --git a/src/handler.rs b/src/handler.rs
index 71b234a..3a80575 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -73,6 +73,7 @@ where
 {
     let mut keepalive_duration: u64 = 60;
     let mut has_connected = false;
+    let mut last_packet_id: u16 = 0;
     let mut protocol = ProtocalVersion::Unknown;
     let mut cid = None;
     let keepalive_timer = tokio::time::sleep(Duration::from_secs(60));
@@ -213,15 +214,18 @@ where
                             debug!("Wrote {} bytes", resp.len());
                         },
                         VariableHeader::Publish { topic, packet_id, payload, .. } => {
+                            let qos = packet.fixed.get_qos()?;
+
                             message_bridge
                             .send(Command::Publish {
                                 topic,
+                                qos,
                                 payload,
                             })
                             .await
                             .map_err(MqttError::ChannelError)?;
 
-                            let data = match packet.fixed.get_qos()? {
+                            let data = match qos {
                                 QosLevel::AtMost => None,
                                 QosLevel::AtLeast => {
                                     let id = packet_id.ok_or_else(|| MqttError::ProtocolViolation)?;
@@ -278,7 +282,17 @@ where
             event = rx.recv() => {
                 if let Some(ev) = event {
                     match ev {
-                        ClientEvent::Message(msg) => {
+                        ClientEvent::Message { topic, qos, payload } => {
+                            let packet_id = match qos {
+                                QosLevel::AtMost => None,
+                                QosLevel::AtLeast | QosLevel::Exactly => {
+                                    // zero is not a packet identifier
+                                    last_packet_id = last_packet_id.checked_add(1).unwrap_or(1);
+                                    Some(last_packet_id)
+                                }
+                            };
+                            let msg = Packet::make_publish(false, qos, false, topic, packet_id, payload);
+
                             writer.write_all(&msg).await?;
                             debug!("Wrote {} bytes", msg.len());
                         },
diff --git a/src/main.rs b/src/main.rs
index 7325fdb..94f8828 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -73,7 +73,11 @@ async fn main() -> Result<(), MqttError> {
                     callback,
                 } => context.subscribe(client, topics, callback),
 
-                Command::Publish { topic, payload } => context.publish(topic, payload).await,
+                Command::Publish {
+                    topic,
+                    qos,
+                    payload,
+                } => context.publish(topic, qos, payload).await,
                 Command::Unsubscribe {
                     topics,
                     cid,
-- 
2.43.0


From 3a7752c558ced1c3a6edf5425ccf2ae2ee55366c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:59 +0000
Subject: [PATCH 18/24] fix: publish a resent QoS 2 message once

---
 src/handler.rs | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/handler.rs b/src/handler.rs
index 3a80575..1fcfb2a 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -1,4 +1,4 @@
-use std::time::Duration;
+use std::{collections::HashSet, time::Duration};
 
 use bytes::{Bytes, BytesMut};
 use log::{debug, error};
@@ -74,6 +74,8 @@ where
     let mut keepalive_duration: u64 = 60;
     let mut has_connected = false;
     let mut last_packet_id: u16 = 0;
+    // identifiers of the QoS 2 messages that the client has not released yet
+    let mut unreleased = HashSet::<u16>::new();
     let mut protocol = ProtocalVersion::Unknown;
     let mut cid = None;
     let keepalive_timer = tokio::time::sleep(Duration::from_secs(60));
@@ -216,14 +218,22 @@ where
                         VariableHeader::Publish { topic, packet_id, payload, .. } => {
                             let qos = packet.fixed.get_qos()?;
 
-                            message_bridge
-                            .send(Command::Publish {
-                                topic,
-                                qos,
-                                payload,
-                            })
-                            .await
-                            .map_err(MqttError::ChannelError)?;
+                            // a QoS 2 message that is sent again is answered, but not published again
+                            let resent = match (qos, packet_id) {
+                                (QosLevel::Exactly, Some(id)) => !unreleased.insert(id),
+                                _ => false,
+                            };
+
+                            if !resent {
+                                message_bridge
+                                .send(Command::Publish {
+                                    topic,
+                                    qos,
+                                    payload,
+                                })
+                                .await
+                                .map_err(MqttError::ChannelError)?;
+                            }
 
                             let data = match qos {
                                 QosLevel::AtMost => None,
@@ -250,6 +260,7 @@ where
                             debug!("Wrote {} bytes", resp.len());
                         },
                         VariableHeader::PubRel { packet_id, .. } => {
+                            unreleased.remove(&packet_id);
                             let resp = Packet::make_pubcomp(packet_id);
                             writer.write_all(&resp).await?;
                             debug!("Wrote {} bytes", resp.len());
-- 
2.43.0


From 241c57488602b962d798d515469290f93351e7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:10 +0000
Subject: [PATCH 19/24] fix: keep the sessions of connections with the same
 client id apart

---
 src/core/enums.rs   | 14 +++++++--
 src/core/mod.rs     | 69 +++++++++++++++++++++++++++++----------------
 src/core/session.rs | 14 +++++++--
 src/handler.rs      | 50 ++++++++++++++++++++------------
 src/main.rs         | 22 +++++++++------
 5 files changed, 113 insertions(+), 56 deletions(-)

diff --git a/src/core/enums.rs b/src/core/enums.rs
index 37a952a..5c4bef4 100644
--- a/src/core/enums.rs
+++ b/src/core/enums.rs
@@ -1,4 +1,5 @@
 use bytes::Bytes;
+use tokio_util::sync::CancellationToken;
 
 use crate::packets::enums::QosLevel;
 use crate::{error::MqttError, packets::enums::SubackReturnCode};
@@ -14,11 +15,15 @@ pub enum Command {
         message_channel: Receiver<ClientEvent>,
         protocol: ProtocalVersion,
         clean_session: bool,
-        callback: Responder<Result<(), MqttError>>,
+        /// Ends the connection when another one takes its client id over.
+        takeover: CancellationToken,
+        /// Answers with the id of the new session.
+        callback: Responder<Result<u128, MqttError>>,
     },
 
     Subscribe {
         client: String,
+        session: u128,
         topics: Vec<(String, QosLevel)>,
         callback: Responder<Result<Vec<SubackReturnCode>, MqttError>>,
     },
@@ -31,9 +36,13 @@ pub enum Command {
     Unsubscribe {
         topics: Vec<String>,
         cid: String,
+        session: u128,
         callback: Responder<Result<(), MqttError>>,
     },
-    DisconnectClient(String),
+    DisconnectClient {
+        cid: String,
+        session: u128,
+    },
     Exit,
 }
 
@@ -44,7 +53,6 @@ pub enum ClientEvent {
         qos: QosLevel,
         payload: Bytes,
     },
-    Disconnect,
 }
 #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
 #[repr(u8)]
diff --git a/src/core/mod.rs b/src/core/mod.rs
index f8c2a9c..b7d7616 100644
--- a/src/core/mod.rs
+++ b/src/core/mod.rs
@@ -3,6 +3,7 @@ use std::collections::HashMap;
 use bytes::Bytes;
 use log::{debug, error};
 use tokio::sync::mpsc::Sender;
+use tokio_util::sync::CancellationToken;
 
 use crate::{
     error::MqttError,
@@ -32,15 +33,21 @@ impl App {
         }
     }
 
+    /// The session of a client, unless another connection has taken the client id over.
+    fn session(&mut self, cid: &str, session: u128) -> Option<&mut Session> {
+        self.sessions.get_mut(cid).filter(|e| e.id == session)
+    }
+
     /// Subscribe to the current topic at the given qos
     pub fn subscribe(
         &mut self,
         cid: String,
+        session: u128,
         topics: Vec<(String, QosLevel)>,
         callback: tokio::sync::oneshot::Sender<Result<Vec<SubackReturnCode>, MqttError>>,
     ) {
-        let (id, bridge) = match self.sessions.get(&cid) {
-            Some(session) => (session.id, session.bridge.clone()),
+        let session = match self.sessions.get_mut(&cid).filter(|e| e.id == session) {
+            Some(session) => session,
             None => {
                 if callback.send(Err(MqttError::Unknown)).is_err() {
                     log::error!("Client does not exist");
@@ -51,10 +58,13 @@ impl App {
         let codes = topics
             .into_iter()
             .map(|(topic, qos)| {
-                let leaf = SubscriptionLeaf::new(qos, id, bridge.clone());
-                if self.subscriptions.insert(topic, leaf).is_err() {
+                let leaf = SubscriptionLeaf::new(qos, session.id, session.bridge.clone());
+                if self.subscriptions.insert(topic.clone(), leaf).is_err() {
                     return SubackReturnCode::Failure;
                 }
+                if !session.filters.contains(&topic) {
+                    session.filters.push(topic);
+                }
                 match qos {
                     QosLevel::AtMost => SubackReturnCode::SuccessQosZero,
                     QosLevel::AtLeast => SubackReturnCode::SuccessQosOne,
@@ -72,11 +82,15 @@ impl App {
     pub fn unsubscribe(
         &mut self,
         cid: String,
+        session: u128,
         topics: Vec<String>,
         callback: tokio::sync::oneshot::Sender<Result<(), MqttError>>,
     ) {
-        let id = match self.sessions.get(&cid) {
-            Some(session) => session.id,
+        let id = match self.session(&cid, session) {
+            Some(session) => {
+                session.filters.retain(|e| !topics.contains(e));
+                session.id
+            }
             None => {
                 if callback.send(Err(MqttError::Unknown)).is_err() {
                     log::error!("Client does not exist");
@@ -96,40 +110,45 @@ impl App {
         }
     }
 
-    pub async fn connect(
+    pub fn connect(
         &mut self,
         client_id: String,
         message_channel: Sender<ClientEvent>,
         _protocol: ProtocalVersion,
         _clean_session: bool,
-        callback: tokio::sync::oneshot::Sender<Result<(), MqttError>>,
+        takeover: CancellationToken,
+        callback: tokio::sync::oneshot::Sender<Result<u128, MqttError>>,
     ) {
         debug!("New client connecting with id of '{}'", client_id);
-        if self.sessions.contains_key(&client_id) {
-            if let Some(current_client) = self.sessions.get(&client_id) {
-                if let Err(err) = current_client.bridge.send(ClientEvent::Disconnect).await {
-                    error!("{}", err);
-                }
-            }
+        if let Some(existing_client) = self.sessions.remove(&client_id) {
+            existing_client.takeover.cancel();
+            self.drop_subscriptions(existing_client);
         }
 
-        if let Some(existing_client) = self.sessions.get_mut(&client_id) {
-            existing_client.bridge = message_channel;
-        } else {
-            self.sessions
-                .insert(client_id, Session::new(message_channel));
-        }
+        let session = Session::new(message_channel, takeover);
+        let id = session.id;
 
-        if callback.send(Ok(())).is_err() {
+        self.sessions.insert(client_id, session);
+
+        if callback.send(Ok(id)).is_err() {
             log::error!("Client no longer exists");
         }
     }
 
-    pub fn disconnect(&mut self, cid: String) {
-        /*if let Some(client) = self.sessions.get(&cid) {
+    pub fn disconnect(&mut self, cid: String, session: u128) {
+        if self.session(&cid, session).is_some() {
+            if let Some(session) = self.sessions.remove(&cid) {
+                self.drop_subscriptions(session);
+            }
+        }
+    }
 
-        }*/
-        self.sessions.remove(&cid);
+    fn drop_subscriptions(&mut self, session: Session) {
+        for filter in session.filters {
+            if self.subscriptions.delete(filter, session.id).is_err() {
+                error!("Failed to delete subscription from tree");
+            }
+        }
     }
 
     pub async fn publish(&self, topic: String, qos: QosLevel, payload: Bytes) {
diff --git a/src/core/session.rs b/src/core/session.rs
index cac0152..da04593 100644
--- a/src/core/session.rs
+++ b/src/core/session.rs
@@ -1,4 +1,5 @@
 use tokio::sync::mpsc::Sender;
+use tokio_util::sync::CancellationToken;
 use uuid::Uuid;
 
 use super::enums::ClientEvent;
@@ -6,12 +7,21 @@ use super::enums::ClientEvent;
 pub struct Session {
     pub id: u128,
     pub bridge: Sender<ClientEvent>,
+    /// Ends the connection that this session belongs to.
+    pub takeover: CancellationToken,
+    /// The filters this session has subscribed to.
+    pub filters: Vec<String>,
 }
 
 impl Session {
-    pub fn new(bridge: Sender<ClientEvent>) -> Self {
+    pub fn new(bridge: Sender<ClientEvent>, takeover: CancellationToken) -> Self {
         let id = Uuid::new_v4().as_u128();
 
-        Self { id, bridge }
+        Self {
+            id,
+            bridge,
+            takeover,
+            filters: Vec::new(),
+        }
     }
 }
diff --git a/src/handler.rs b/src/handler.rs
index 1fcfb2a..da2b4f0 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -32,10 +32,30 @@ where
     W: AsyncWrite + Unpin,
     R: AsyncRead + Unpin,
 {
+    let mut session = None;
+
     broker_info::client_inc();
-    let result = handle_client(read_stream, writer, message_bridge, cancellation).await;
+    let result = handle_client(
+        read_stream,
+        writer,
+        &message_bridge,
+        cancellation.child_token(),
+        &mut session,
+    )
+    .await;
     broker_info::client_dec();
 
+    // however the connection has ended, its session ends with it
+    if let Some((cid, session)) = session {
+        if message_bridge
+            .send(Command::DisconnectClient { cid, session })
+            .await
+            .is_err()
+        {
+            error!("Receiver dropped!");
+        }
+    }
+
     debug!("Client: disconnect");
 
     result
@@ -64,8 +84,9 @@ where
 async fn handle_client<R, W>(
     mut reader: R,
     mut writer: W,
-    message_bridge: Sender<Command>,
+    message_bridge: &Sender<Command>,
     cancellation: CancellationToken,
+    session: &mut Option<(String, u128)>,
 ) -> Result<(), MqttError>
 where
     W: AsyncWrite + Unpin,
@@ -77,7 +98,6 @@ where
     // identifiers of the QoS 2 messages that the client has not released yet
     let mut unreleased = HashSet::<u16>::new();
     let mut protocol = ProtocalVersion::Unknown;
-    let mut cid = None;
     let keepalive_timer = tokio::time::sleep(Duration::from_secs(60));
     let mut buffer = BytesMut::with_capacity(8 * 1024);
     let (tx, mut rx) = channel::<ClientEvent>(100);
@@ -141,8 +161,8 @@ where
 
                             protocol = protocol_version;
 
-                            let (r_tx, r_rx) = tokio::sync::oneshot::channel::<Result<(), MqttError>>();
-                            cid = Some(client_id.clone());
+                            let (r_tx, r_rx) = tokio::sync::oneshot::channel::<Result<u128, MqttError>>();
+                            let cid = client_id.clone();
 
                             if message_bridge
                             .send(Command::RegisterClient {
@@ -150,6 +170,7 @@ where
                                 message_channel: tx.clone(),
                                 protocol,
                                 clean_session: flags.clean_session(),
+                                takeover: cancellation.clone(),
                                 callback: r_tx,
                             }).await.is_err()
                           {
@@ -157,7 +178,8 @@ where
                                 break 'ctrl;
                           }
 
-                          r_rx.await.map_err(|_| MqttError::QueuePoisonError)??;
+                          let id = r_rx.await.map_err(|_| MqttError::QueuePoisonError)??;
+                          *session = Some((cid, id));
                           has_connected = true;
                           keepalive_duration = if keepalive == 0 { 0 } else { (keepalive as u64) + 4 };
                           keepalive_timer.as_mut().reset(Instant::now() + Duration::from_secs(keepalive_duration));
@@ -168,13 +190,14 @@ where
                           debug!("Wrote {} bytes", resp.len());
                         },
                         VariableHeader::Subscribe { packet_id, tuples,.. } => {
-                            let id = cid.as_ref().ok_or_else(|| MqttError::FailedToGetCId)?;
+                            let (id, session) = session.as_ref().ok_or_else(|| MqttError::FailedToGetCId)?;
                             let (r_tx, r_rx) =
                             tokio::sync::oneshot::channel::<Result<Vec<SubackReturnCode>, MqttError>>();
 
                             if message_bridge
                             .send(Command::Subscribe {
                                 client: id.clone(),
+                                session: *session,
                                 topics: tuples,
                                 callback: r_tx,
                             })
@@ -192,7 +215,7 @@ where
                             debug!("Wrote {} bytes", resp.len());
                         },
                         VariableHeader::Unsubscribe { packet_id, tuples, .. } => {
-                            let id = cid.as_ref().ok_or_else(|| MqttError::FailedToGetCId)?;
+                            let (id, session) = session.as_ref().ok_or_else(|| MqttError::FailedToGetCId)?;
 
                             let (r_tx, r_rx) = tokio::sync::oneshot::channel::<Result<(), MqttError>>();
 
@@ -200,6 +223,7 @@ where
                                 .send(Command::Unsubscribe {
                                     topics: tuples,
                                     cid: id.clone(),
+                                    session: *session,
                                     callback: r_tx,
                                 })
                                 .await
@@ -273,15 +297,6 @@ where
                         },
                         VariableHeader::Disconnect { .. } => {
                             debug!("Disconnect Called");
-                            let id = cid.as_ref().ok_or_else(|| MqttError::FailedToGetCId)?;
-                            if message_bridge
-                            .send(Command::DisconnectClient(id.clone()))
-                            .await
-                            .is_err()
-                            {
-                                error!("Receiver dropped!");
-                                break 'ctrl;
-                            }
                             break 'ctrl;
                         },
                         _ => {
@@ -307,7 +322,6 @@ where
                             writer.write_all(&msg).await?;
                             debug!("Wrote {} bytes", msg.len());
                         },
-                        ClientEvent::Disconnect => break 'ctrl,
                     }
                 }
 
diff --git a/src/main.rs b/src/main.rs
index 94f8828..a1539d0 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -61,17 +61,22 @@ async fn main() -> Result<(), MqttError> {
                     message_channel,
                     protocol,
                     clean_session,
+                    takeover,
                     callback,
-                } => {
-                    context
-                        .connect(id, message_channel, protocol, clean_session, callback)
-                        .await
-                }
+                } => context.connect(
+                    id,
+                    message_channel,
+                    protocol,
+                    clean_session,
+                    takeover,
+                    callback,
+                ),
                 Command::Subscribe {
                     client,
+                    session,
                     topics,
                     callback,
-                } => context.subscribe(client, topics, callback),
+                } => context.subscribe(client, session, topics, callback),
 
                 Command::Publish {
                     topic,
@@ -81,9 +86,10 @@ async fn main() -> Result<(), MqttError> {
                 Command::Unsubscribe {
                     topics,
                     cid,
+                    session,
                     callback,
-                } => context.unsubscribe(cid, topics, callback),
-                Command::DisconnectClient(cid) => context.disconnect(cid),
+                } => context.unsubscribe(cid, session, topics, callback),
+                Command::DisconnectClient { cid, session } => context.disconnect(cid, session),
                 Command::Exit => break,
             }
         }
-- 
2.43.0


From dedaa44a7639e82aa4d514c348fd345c96ec89ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:52 +0000
Subject: [PATCH 20/24] fix: never wait for a client that does not read

---
 src/core/mod.rs |   7 ++--
 src/handler.rs  | 106 ++++++++++++++++++++++++++++++++++++++----------
 src/main.rs     |   2 +-
 3 files changed, 89 insertions(+), 26 deletions(-)

diff --git a/src/core/mod.rs b/src/core/mod.rs
index b7d7616..7870508 100644
--- a/src/core/mod.rs
+++ b/src/core/mod.rs
@@ -151,7 +151,7 @@ impl App {
         }
     }
 
-    pub async fn publish(&self, topic: String, qos: QosLevel, payload: Bytes) {
+    pub fn publish(&self, topic: String, qos: QosLevel, payload: Bytes) {
         let subs = match self.subscriptions.get(topic.clone()) {
             Ok(subs) => subs,
             Err(_) => {
@@ -166,8 +166,9 @@ impl App {
                 qos: qos.min(granted),
                 payload: payload.clone(),
             };
-            if let Err(e) = bridge.send(message).await {
-                log::error!("receiver dropped: {}", e);
+            // the message is lost for a client that has stopped reading or is gone, nobody waits for it
+            if let Err(e) = bridge.try_send(message) {
+                log::error!("message dropped: {}", e);
             }
         }
     }
diff --git a/src/handler.rs b/src/handler.rs
index da2b4f0..5a0f6de 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -1,4 +1,7 @@
-use std::{collections::HashSet, time::Duration};
+use std::{
+    collections::{HashSet, VecDeque},
+    time::Duration,
+};
 
 use bytes::{Bytes, BytesMut};
 use log::{debug, error};
@@ -61,6 +64,70 @@ where
     result
 }
 
+/// Messages a client may have waiting before further ones are dropped.
+const MAX_WAITING_MESSAGES: usize = 10_000;
+/// Packets that are taken out of the queue, or answered, ahead of what the client reads.
+const MAX_UNWRITTEN_PACKETS: usize = 100;
+
+/// Packets on their way to a client. A client that does not read must never keep the broker waiting.
+#[derive(Default)]
+struct Outgoing {
+    packets: VecDeque<Bytes>,
+    /// bytes of the first packet that are already written
+    written: usize,
+}
+
+impl Outgoing {
+    fn is_empty(&self) -> bool {
+        self.packets.is_empty()
+    }
+
+    fn is_full(&self) -> bool {
+        self.packets.len() >= MAX_UNWRITTEN_PACKETS
+    }
+
+    /// Queues a packet and writes what the connection takes without waiting.
+    async fn send<W>(&mut self, writer: &mut W, packet: Bytes) -> Result<(), MqttError>
+    where
+        W: AsyncWrite + Unpin,
+    {
+        self.packets.push_back(packet);
+
+        while !self.is_empty() {
+            select! {
+                biased;
+                result = self.write(writer) => result?,
+                () = std::future::ready(()) => break,
+            }
+        }
+
+        Ok(())
+    }
+
+    /// Writes to the connection once.
+    ///
+    /// Cancel safe: nothing has been written unless it completes.
+    async fn write<W>(&mut self, writer: &mut W) -> Result<(), MqttError>
+    where
+        W: AsyncWrite + Unpin,
+    {
+        if let Some(packet) = self.packets.front() {
+            match writer.write(&packet[self.written..]).await? {
+                0 => return Err(MqttError::Io(std::io::ErrorKind::WriteZero.into())),
+                len => self.written += len,
+            }
+
+            if self.written == packet.len() {
+                debug!("Wrote {} bytes", packet.len());
+                self.packets.pop_front();
+                self.written = 0;
+            }
+        }
+
+        Ok(())
+    }
+}
+
 /// Reads one whole packet, or None when the peer has closed the connection.
 ///
 /// Cancel safe: what has been read of an incomplete packet stays in `buffer`.
@@ -99,8 +166,9 @@ where
     let mut unreleased = HashSet::<u16>::new();
     let mut protocol = ProtocalVersion::Unknown;
     let keepalive_timer = tokio::time::sleep(Duration::from_secs(60));
+    let mut outgoing = Outgoing::default();
     let mut buffer = BytesMut::with_capacity(8 * 1024);
-    let (tx, mut rx) = channel::<ClientEvent>(100);
+    let (tx, mut rx) = channel::<ClientEvent>(MAX_WAITING_MESSAGES);
 
     tokio::pin!(keepalive_timer);
 
@@ -113,7 +181,10 @@ where
             () = &mut keepalive_timer, if keepalive_duration > 0 => {
                 break 'ctrl;
             }
-            received = read_packet(&mut reader, &mut buffer) => {
+            result = outgoing.write(&mut writer), if !outgoing.is_empty() => {
+                result?;
+            }
+            received = read_packet(&mut reader, &mut buffer), if !outgoing.is_full() => {
                 let packet = match received {
                     Ok(Some(bytes)) => {
                         let (packet, packet_size) = Packet::unpack(&bytes, protocol)?;
@@ -153,8 +224,7 @@ where
                                 // The Server MUST process a second CONNECT Packet sent from a Client as a protocol violation and disconnect the Client
                                 let resp = Packet::make_connack(ConnectReturnCode::V4UnacceptableProtocal,false);
 
-                                writer.write_all(&resp).await?;
-                                debug!("Wrote {} bytes", resp.len());
+                                outgoing.send(&mut writer, resp).await?;
 
                                 break 'ctrl;
                             }
@@ -186,8 +256,7 @@ where
 
                           let resp = Packet::make_connack(ConnectReturnCode::Accepted,false);
 
-                          writer.write_all(&resp).await?;
-                          debug!("Wrote {} bytes", resp.len());
+                          outgoing.send(&mut writer, resp).await?;
                         },
                         VariableHeader::Subscribe { packet_id, tuples,.. } => {
                             let (id, session) = session.as_ref().ok_or_else(|| MqttError::FailedToGetCId)?;
@@ -211,8 +280,7 @@ where
 
                             let resp = Packet::make_suback(packet_id, codes);
 
-                            writer.write_all(&resp).await?;
-                            debug!("Wrote {} bytes", resp.len());
+                            outgoing.send(&mut writer, resp).await?;
                         },
                         VariableHeader::Unsubscribe { packet_id, tuples, .. } => {
                             let (id, session) = session.as_ref().ok_or_else(|| MqttError::FailedToGetCId)?;
@@ -236,8 +304,7 @@ where
                             r_rx.await.map_err(|_| MqttError::QueuePoisonError)??;
 
                             let resp = Packet::make_unsuback(packet_id);
-                            writer.write_all(&resp).await?;
-                            debug!("Wrote {} bytes", resp.len());
+                            outgoing.send(&mut writer, resp).await?;
                         },
                         VariableHeader::Publish { topic, packet_id, payload, .. } => {
                             let qos = packet.fixed.get_qos()?;
@@ -274,26 +341,22 @@ where
                             };
 
                             if let Some(resp) = data {
-                                writer.write_all(&resp).await?;
-                                debug!("Wrote {} bytes", resp.len());
+                                outgoing.send(&mut writer, resp).await?;
                             }
                         }
                         VariableHeader::PubRec { packet_id, .. } => {
                             let resp = Packet::make_pubrel(packet_id);
-                            writer.write_all(&resp).await?;
-                            debug!("Wrote {} bytes", resp.len());
+                            outgoing.send(&mut writer, resp).await?;
                         },
                         VariableHeader::PubRel { packet_id, .. } => {
                             unreleased.remove(&packet_id);
                             let resp = Packet::make_pubcomp(packet_id);
-                            writer.write_all(&resp).await?;
-                            debug!("Wrote {} bytes", resp.len());
+                            outgoing.send(&mut writer, resp).await?;
                         },
                         VariableHeader::PubComp { packet_id: _, ..} | VariableHeader::PubAck { packet_id: _, .. } => {}
                         VariableHeader::PingReq => {
                             let resp = Packet::make_ping_resp();
-                            writer.write_all(&resp).await?;
-                            debug!("Wrote {} bytes", resp.len());
+                            outgoing.send(&mut writer, resp).await?;
                         },
                         VariableHeader::Disconnect { .. } => {
                             debug!("Disconnect Called");
@@ -305,7 +368,7 @@ where
                         }
                     }
             }
-            event = rx.recv() => {
+            event = rx.recv(), if !outgoing.is_full() => {
                 if let Some(ev) = event {
                     match ev {
                         ClientEvent::Message { topic, qos, payload } => {
@@ -319,8 +382,7 @@ where
                             };
                             let msg = Packet::make_publish(false, qos, false, topic, packet_id, payload);
 
-                            writer.write_all(&msg).await?;
-                            debug!("Wrote {} bytes", msg.len());
+                            outgoing.send(&mut writer, msg).await?;
                         },
                     }
                 }
diff --git a/src/main.rs b/src/main.rs
index a1539d0..db2a3c7 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -82,7 +82,7 @@ async fn main() -> Result<(), MqttError> {
                     topic,
                     qos,
                     payload,
-                } => context.publish(topic, qos, payload).await,
+                } => context.publish(topic, qos, payload),
                 Command::Unsubscribe {
                     topics,
                     cid,
-- 
2.43.0


From 8781fc5c59b2bc53f022fc64ff675a2c369fda38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:54 +0000
Subject: [PATCH 21/24] fix: count received and sent traffic

---
 src/handler.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/handler.rs b/src/handler.rs
index 5a0f6de..7347b41 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -20,7 +20,7 @@ use crate::{
     },
     error::MqttError,
     packets::{
-        enums::{ConnectReturnCode, QosLevel, SubackReturnCode},
+        enums::{ConnectReturnCode, PacketType, QosLevel, SubackReturnCode},
         Packet, VariableHeader,
     },
 };
@@ -119,6 +119,10 @@ impl Outgoing {
 
             if self.written == packet.len() {
                 debug!("Wrote {} bytes", packet.len());
+                broker_info::sent_data(packet.len());
+                if packet[0] >> 4 == PacketType::Publish as u8 {
+                    broker_info::sent_published();
+                }
                 self.packets.pop_front();
                 self.written = 0;
             }
@@ -188,7 +192,7 @@ where
                 let packet = match received {
                     Ok(Some(bytes)) => {
                         let (packet, packet_size) = Packet::unpack(&bytes, protocol)?;
-                        broker_info::sent_data(packet_size);
+                        broker_info::received_data(packet_size);
 
                         packet
                     }
@@ -307,6 +311,7 @@ where
                             outgoing.send(&mut writer, resp).await?;
                         },
                         VariableHeader::Publish { topic, packet_id, payload, .. } => {
+                            broker_info::received_published();
                             let qos = packet.fixed.get_qos()?;
 
                             // a QoS 2 message that is sent again is answered, but not published again
-- 
2.43.0


From e5ae1f99ba8722c1c8c4906922941ee9c089339a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:51 +0000
Subject: [PATCH 22/24] fix: refuse topic filters that are too deep for the
 stack

---
 src/topic_heir.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/topic_heir.rs b/src/topic_heir.rs
index 8b3e11a..edd017a 100644
--- a/src/topic_heir.rs
+++ b/src/topic_heir.rs
@@ -6,6 +6,9 @@ use tokio::sync::mpsc::Sender;
 // https://github.com/eclipse/mosquitto/blob/master/src/subs.c#L335
 //https://github.com/eclipse/mosquitto/blob/master/src/handle_subscribe.c
 
+/// The tree is walked recursively: much deeper filters could overflow the stack.
+const MAX_FILTER_LEVELS: usize = 200;
+
 #[derive(Debug)]
 pub struct SubscriptionLeaf {
     qos: QosLevel,
@@ -177,7 +180,7 @@ impl SubscriptionTree {
         Self(DashMap::new())
     }
     pub fn insert(&mut self, filter: String, sub: SubscriptionLeaf) -> Result<(), u8> {
-        if !utils::is_valid_filter(&filter) {
+        if !utils::is_valid_filter(&filter) || filter.split('/').count() > MAX_FILTER_LEVELS {
             return Err(1);
         }
         let (filter_list, sharename) = utils::tokenise_topic(filter)?;
-- 
2.43.0


From abde7d4dc40ef15a688e26457a046b79755db1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:17 +0000
Subject: [PATCH 23/24] fix: match topics without copying their levels

---
 src/topic_heir.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/topic_heir.rs b/src/topic_heir.rs
index edd017a..9b9c854 100644
--- a/src/topic_heir.rs
+++ b/src/topic_heir.rs
@@ -117,15 +117,15 @@ impl SubHier {
         self.children.is_empty() && self.shared.is_empty() && self.subs.is_empty()
     }
 
-    pub fn get(
+    pub fn get<'a>(
         &self,
-        iter: &mut (impl std::iter::Iterator<Item = String> + Clone),
+        iter: &mut (impl std::iter::Iterator<Item = &'a String> + Clone),
         subscribers: &mut Vec<(u128, Sender<ClientEvent>, QosLevel)>,
         share: &Option<String>,
     ) {
         if let Some(topic) = iter.next() {
             // both branches have to see the remaining levels
-            if let Some(child) = self.children.get(&topic) {
+            if let Some(child) = self.children.get(topic) {
                 child.get(&mut iter.clone(), subscribers, share);
             }
 
@@ -219,10 +219,10 @@ impl SubscriptionTree {
         let mut subscribers = Vec::new();
         let (filter_list, sharename) = utils::tokenise_topic(filter)?;
 
-        let mut iter = filter_list.into_iter();
+        let mut iter = filter_list.iter();
 
         if let Some(topic) = iter.next() {
-            if let Some(child) = self.0.get(&topic) {
+            if let Some(child) = self.0.get(topic) {
                 child.get(&mut iter.clone(), &mut subscribers, &sharename);
             }
             // a leading wildcard does not match topics that start with '$'
-- 
2.43.0


From 6b66deb37ea056ebf7d87d7073b07e801337e2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:29 +0000
Subject: [PATCH 24/24] fix: remove shared subscription groups that have become
 empty

An empty group kept its node of the subscription tree, and all nodes above
it, alive for ever.
---
 src/topic_heir.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/topic_heir.rs b/src/topic_heir.rs
index 9b9c854..e4f15f2 100644
--- a/src/topic_heir.rs
+++ b/src/topic_heir.rs
@@ -109,6 +109,12 @@ impl SubHier {
                 if let Some(idx) = s.iter().position(|e| e.identifier == identifer) {
                     s.remove(idx);
                 }
+                let is_empty = s.is_empty();
+                // no reference into the map may be held while removing
+                drop(s);
+                if is_empty {
+                    self.shared.remove(&sharename);
+                }
             }
         } else if let Some(idx) = self.subs.iter().position(|e| e.identifier == identifer) {
             self.subs.remove(idx);
-- 
2.43.0

