From 42b03f81f3a15e2855779bf25ba0b37254dd0e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:37 +0000
Subject: [PATCH 1/4] fix: refuse to encode packets whose attributes exceed
 65515 bytes

The total length was computed in u16, so very large attribute lists wrapped
around (or panicked with overflow checks) instead of being refused.
---
 radius/src/core/packet.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/radius/src/core/packet.rs b/radius/src/core/packet.rs
index a42e806..b3e4e7c 100644
--- a/radius/src/core/packet.rs
+++ b/radius/src/core/packet.rs
@@ -288,15 +288,15 @@ impl Packet {
             Err(e) => return Err(e),
         };
 
-        let size = RADIUS_PACKET_HEADER_LENGTH as u16 + encoded_avp.len() as u16;
-        if size as usize > MAX_PACKET_LENGTH {
+        let size = RADIUS_PACKET_HEADER_LENGTH + encoded_avp.len();
+        if size > MAX_PACKET_LENGTH {
             return Err("packet is too large".to_owned());
         }
 
         let mut bs: Vec<u8> = Vec::new();
         bs.push(self.code as u8);
         bs.push(self.identifier);
-        bs.extend(u16::to_be_bytes(size).to_vec());
+        bs.extend(u16::to_be_bytes(size as u16).to_vec());
         bs.extend(self.authenticator.to_vec());
         bs.extend(match self.attributes.encode() {
             Ok(encoded) => encoded,
-- 
2.43.0


From 006a7acc503e1360cf222390b6023f907a5cabe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:37 +0000
Subject: [PATCH 2/4] fix: limit the length of the tunnel-password plain text,
 not of the authenticator

A plain text longer than 240 bytes made an attribute that can neither be
encoded into a packet nor be decoded again.
---
 radius/src/core/avp.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/radius/src/core/avp.rs b/radius/src/core/avp.rs
index b0fac66..bf13da8 100644
--- a/radius/src/core/avp.rs
+++ b/radius/src/core/avp.rs
@@ -367,10 +367,10 @@ impl AVP {
          *  https://tools.ietf.org/html/rfc2868#section-3.5
          */
 
-        if request_authenticator.len() > 240 {
+        if plain_text.len() > 240 {
             return Err(AVPError::InvalidAttributeLengthError(
                 "240 bytes".to_owned(),
-                request_authenticator.len(),
+                plain_text.len(),
             ));
         }
 
@@ -460,10 +460,10 @@ impl AVP {
          *  https://tools.ietf.org/html/rfc2868#section-3.5
          */
 
-        if request_authenticator.len() > 240 {
+        if plain_text.len() > 240 {
             return Err(AVPError::InvalidAttributeLengthError(
                 "240 bytes".to_owned(),
-                request_authenticator.len(),
+                plain_text.len(),
             ));
         }
 
-- 
2.43.0


From bb9af4723356f270225a2a2a2f8424d02acce5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:37 +0000
Subject: [PATCH 3/4] fix: forget an undergoing request even if its handler
 panics

Otherwise every later request with the same identifier from the same peer was
dropped as a duplicate forever.
---
 radius/src/server.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/radius/src/server.rs b/radius/src/server.rs
index ac891d4..a6cc916 100644
--- a/radius/src/server.rs
+++ b/radius/src/server.rs
@@ -202,15 +202,19 @@ impl<X, E: Debug, T: RequestHandler<X, E>, U: SecretProvider> Server<X, E, T, U>
             ip: remote_addr.to_string(),
             identifier: packet.get_identifier(),
         };
-        let key_for_remove = key.clone();
 
         {
             let mut undergoing_requests = undergoing_requests_lock.write().unwrap();
             if undergoing_requests.contains(&key) {
                 return;
             }
-            undergoing_requests.insert(key);
+            undergoing_requests.insert(key.clone());
         }
+        // removes the key on the end of the handling, even if the handler panics
+        let _undergoing_request = UndergoingRequest {
+            undergoing_requests_lock,
+            key,
+        };
 
         match request_handler
             .handle_radius_request(
@@ -224,9 +228,6 @@ impl<X, E: Debug, T: RequestHandler<X, E>, U: SecretProvider> Server<X, E, T, U>
                 println!("{e:?}");
             }
         }
-
-        let mut undergoing_requests = undergoing_requests_lock.write().unwrap();
-        undergoing_requests.remove(&key_for_remove);
     }
 }
 
@@ -264,3 +265,18 @@ struct RequestKey {
     ip: String,
     identifier: u8,
 }
+
+struct UndergoingRequest {
+    undergoing_requests_lock: Arc<RwLock<HashSet<RequestKey>>>,
+    key: RequestKey,
+}
+
+impl Drop for UndergoingRequest {
+    fn drop(&mut self) {
+        let mut undergoing_requests = self
+            .undergoing_requests_lock
+            .write()
+            .unwrap_or_else(|e| e.into_inner());
+        undergoing_requests.remove(&self.key);
+    }
+}
-- 
2.43.0


From 4db871e4dd85cfe4de239cb57529230c9c34b286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:37 +0000
Subject: [PATCH 4/4] fix: verify that a response is authentic and belongs to
 the request

The client accepted any decodable datagram as the response, so a forged or
unrelated datagram was handed to the caller as the server's answer.
---
 radius/src/client.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/radius/src/client.rs b/radius/src/client.rs
index d7c3097..83b3e55 100644
--- a/radius/src/client.rs
+++ b/radius/src/client.rs
@@ -121,8 +121,21 @@ impl Client {
             None => self.request(&conn, &request_data, remote_addr).await,
         }?;
 
-        match Packet::decode(&response.to_vec(), request_packet.get_secret()) {
-            Ok(response_packet) => Ok(response_packet),
+        if !Packet::is_authentic_response(&response, &request_data, request_packet.get_secret()) {
+            return Err(ClientError::FailedDecodingRadiusResponseError(
+                "the response is not authentic".to_owned(),
+            ));
+        }
+
+        match Packet::decode(&response, request_packet.get_secret()) {
+            Ok(response_packet) => {
+                if response_packet.get_identifier() != request_packet.get_identifier() {
+                    return Err(ClientError::FailedDecodingRadiusResponseError(
+                        "the identifier of the response doesn't match the request".to_owned(),
+                    ));
+                }
+                Ok(response_packet)
+            }
             Err(e) => Err(ClientError::FailedDecodingRadiusResponseError(format!(
                 "{e}"
             ))),
-- 
2.43.0

