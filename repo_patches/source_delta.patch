From cbbae9d387e67c69cbcdc4f9da15959907442374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:32 +0000
Subject: [PATCH 01/54] fix: accept 4-byte variable byte integers, refuse to
 encode values out of range

---
 vaux-mqtt/src/codec/mod.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/vaux-mqtt/src/codec/mod.rs b/vaux-mqtt/src/codec/mod.rs
index 68c55fa..ebdc48c 100644
--- a/vaux-mqtt/src/codec/mod.rs
+++ b/vaux-mqtt/src/codec/mod.rs
@@ -718,6 +718,12 @@ pub fn decode_variable_byte_int(src: &mut BytesMut) -> Result<(u32, usize), Mqtt
         if next_byte & 0x80 == 0 {
             decode = false;
         } else {
+            // at most 4 bytes, the last one without the continuation bit
+            if shift > 21 {
+                return Err(MqttCodecError::new(
+                    "malformed packet: variable byte integer",
+                ));
+            }
             if !src.has_remaining() {
                 return Err(MqttCodecError::new_with_kind(
                     "Insufficient data for variable byte integer",
@@ -726,16 +732,16 @@ pub fn decode_variable_byte_int(src: &mut BytesMut) -> Result<(u32, usize), Mqtt
             }
             next_byte = src.get_u8();
         }
-        if shift > 21 {
-            return Err(MqttCodecError::new(
-                "malformed packet: variable byte integer",
-            ));
-        }
     }
     Ok((result, shift / 7))
 }
 
 pub fn encode_variable_byte_int(val: u32, dest: &mut BytesMut) -> Result<(), MqttCodecError> {
+    if val > MAX_VARIABLE_BYTE_INT {
+        return Err(MqttCodecError::new(
+            "value exceeds the maximum of a variable byte integer",
+        ));
+    }
     let mut encode = true;
     let mut input_val = val;
     while encode {
-- 
2.43.0


From d854ee9a88067632014d3891a65afa12c274151f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:32 +0000
Subject: [PATCH 02/54] fix: reject PUBLISH with both QoS bits set instead of
 panicking on it later

---
 vaux-mqtt/src/codec/fixed.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vaux-mqtt/src/codec/fixed.rs b/vaux-mqtt/src/codec/fixed.rs
index c967acc..3c3353c 100644
--- a/vaux-mqtt/src/codec/fixed.rs
+++ b/vaux-mqtt/src/codec/fixed.rs
@@ -130,6 +130,11 @@ impl Decode for FixedHeader {
                     format!("invalid flags for {}: {flags}", self.packet_type).as_str(),
                 ));
             }
+            PacketType::Publish if flags & QOS_MASK == QOS_MASK => {
+                return Err(MqttCodecError::new(
+                    format!("invalid QoS for {}: {flags}", self.packet_type).as_str(),
+                ));
+            }
             _ => {}
         }
         self.flags = flags;
-- 
2.43.0


From 4338f25426ce63eaa29266fe5233cb765177dcfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:50 +0000
Subject: [PATCH 03/54] fix: report truncated packet bodies instead of
 panicking on them

---
 vaux-macro/src/decode.rs   | 19 +++++++++++++++++--
 vaux-mqtt/src/codec/mod.rs | 17 +++++++++++++++++
 vaux-mqtt/src/connect.rs   |  6 ++++++
 vaux-mqtt/src/publish.rs   |  4 ++++
 4 files changed, 44 insertions(+), 2 deletions(-)

diff --git a/vaux-macro/src/decode.rs b/vaux-macro/src/decode.rs
index 500599f..4a20b1c 100644
--- a/vaux-macro/src/decode.rs
+++ b/vaux-macro/src/decode.rs
@@ -83,6 +83,7 @@ pub(crate) fn decode_internal(input: TokenStream) -> TokenStream {
             bytes_read += var_bytes_read;
             let mut property_bytes_read = 0_usize;
             while property_bytes_read < property_length {
+                codec::require_remaining(src, 1)?;
                 let property_type = src.get_u8().try_into()?;
                 property_bytes_read += 1;
                 match property_type {
@@ -282,12 +283,17 @@ pub(crate) fn decode_field(field: &syn::Field) -> proc_macro2::TokenStream {
                     }
                     type_name => {
                         if is_primitive_type(type_name) {
-                            decode_for_primitive(
+                            let size = primitive_decode_size(type_name);
+                            let decode_primitive = decode_for_primitive(
                                 field_name,
                                 &inner_field_type,
                                 optional_field,
                                 &property_type,
-                            )
+                            );
+                            quote! {
+                                codec::require_remaining(src, #size)?;
+                                #decode_primitive
+                            }
                         } else {
                             decode_for_type(
                                 field_name,
@@ -349,6 +355,15 @@ fn decode_for_string(
     }
 }
 
+/// Number of bytes read for a primitive field.
+fn primitive_decode_size(type_name: &str) -> usize {
+    match type_name {
+        "u8" | "i8" | "bool" => 1,
+        "u16" | "i16" => 2,
+        _ => 4,
+    }
+}
+
 fn decode_for_primitive(
     field_name: &syn::Ident,
     field_type: &syn::Type,
diff --git a/vaux-mqtt/src/codec/mod.rs b/vaux-mqtt/src/codec/mod.rs
index ebdc48c..d7c9d0a 100644
--- a/vaux-mqtt/src/codec/mod.rs
+++ b/vaux-mqtt/src/codec/mod.rs
@@ -223,6 +223,7 @@ impl Encode for Reason {
 
 impl Decode for Reason {
     fn decode(&mut self, src: &mut BytesMut) -> Result<usize, MqttCodecError> {
+        require_remaining(src, 1)?;
         let val = src.get_u8();
         *self = val.try_into()?;
         Ok(1)
@@ -286,6 +287,7 @@ impl Encode for QoSLevel {
 
 impl Decode for QoSLevel {
     fn decode(&mut self, src: &mut BytesMut) -> Result<usize, MqttCodecError> {
+        require_remaining(src, 1)?;
         let val = src.get_u8();
         *self = val.try_into()?;
         Ok(1)
@@ -431,6 +433,17 @@ impl MqttCodecError {
     }
 }
 
+/// Fails when fewer than `len` bytes are left, reading past the end of the buffer panics.
+pub fn require_remaining(src: &BytesMut, len: usize) -> Result<(), MqttCodecError> {
+    if src.remaining() < len {
+        return Err(MqttCodecError::new_with_kind(
+            "Insufficient data",
+            ErrorKind::InsufficientData(len, src.remaining()),
+        ));
+    }
+    Ok(())
+}
+
 pub fn decode(src: &mut BytesMut) -> Result<Option<(Packet, usize)>, MqttCodecError> {
     let mut fixed_header = FixedHeader::default();
     let mut decode_len = fixed_header.decode(src)?;
@@ -608,6 +621,7 @@ impl Decode for Vec<u8> {
 
 impl Decode for bool {
     fn decode(&mut self, src: &mut BytesMut) -> Result<usize, MqttCodecError> {
+        require_remaining(src, 1)?;
         *self = match src.get_u8() {
             0 => Ok(false),
             1 => Ok(true),
@@ -622,6 +636,7 @@ impl Decode for bool {
 
 impl Decode for u8 {
     fn decode(&mut self, src: &mut BytesMut) -> Result<usize, MqttCodecError> {
+        require_remaining(src, 1)?;
         *self = src.get_u8();
         Ok(1)
     }
@@ -629,6 +644,7 @@ impl Decode for u8 {
 
 impl Decode for u16 {
     fn decode(&mut self, src: &mut BytesMut) -> Result<usize, MqttCodecError> {
+        require_remaining(src, 2)?;
         *self = src.get_u16();
         Ok(2)
     }
@@ -636,6 +652,7 @@ impl Decode for u16 {
 
 impl Decode for u32 {
     fn decode(&mut self, src: &mut BytesMut) -> Result<usize, MqttCodecError> {
+        require_remaining(src, 4)?;
         *self = src.get_u32();
         Ok(4)
     }
diff --git a/vaux-mqtt/src/connect.rs b/vaux-mqtt/src/connect.rs
index 6ac087d..55d73e3 100644
--- a/vaux-mqtt/src/connect.rs
+++ b/vaux-mqtt/src/connect.rs
@@ -195,6 +195,7 @@ impl codec::Decode for Connect {
 
         // header fields
         bytes_read += self.protocol_name.decode(src)?;
+        codec::require_remaining(src, 4)?;
         self.protocol_version = src.get_u8();
         bytes_read += 1;
         self.connect_flags = src.get_u8();
@@ -208,6 +209,7 @@ impl codec::Decode for Connect {
         bytes_read += var_bytes_read;
         let mut property_bytes_read = 0_usize;
         while property_bytes_read < property_length {
+            codec::require_remaining(src, 1)?;
             let property_type: PropertyType = src.get_u8().try_into()?;
             property_bytes_read += 1;
             match property_type {
@@ -217,6 +219,7 @@ impl codec::Decode for Connect {
                     self.session_expiry_interval = Some(value);
                 }
                 PropertyType::RecvMax => {
+                    codec::require_remaining(src, 2)?;
                     self.receive_maximum = Some(src.get_u16());
                     property_bytes_read += 2;
                 }
@@ -226,14 +229,17 @@ impl codec::Decode for Connect {
                     self.max_packet_size = Some(value);
                 }
                 PropertyType::TopicAliasMax => {
+                    codec::require_remaining(src, 2)?;
                     self.topic_alias_maximum = Some(src.get_u16());
                     property_bytes_read += 2;
                 }
                 PropertyType::ReqRespInfo => {
+                    codec::require_remaining(src, 1)?;
                     self.request_response_info = Some(src.get_u8() != 0);
                     property_bytes_read += 1;
                 }
                 PropertyType::ReqProblemInfo => {
+                    codec::require_remaining(src, 1)?;
                     self.request_problem_info = Some(src.get_u8() != 0);
                     property_bytes_read += 1;
                 }
diff --git a/vaux-mqtt/src/publish.rs b/vaux-mqtt/src/publish.rs
index bbd2b09..94ee237 100644
--- a/vaux-mqtt/src/publish.rs
+++ b/vaux-mqtt/src/publish.rs
@@ -35,6 +35,7 @@ impl codec::Encode for PayloadFormat {
 
 impl codec::Decode for PayloadFormat {
     fn decode(&mut self, src: &mut BytesMut) -> Result<usize, MqttCodecError> {
+        codec::require_remaining(src, 1)?;
         *self = PayloadFormat::try_from(src.get_u8())?;
         Ok(1)
     }
@@ -284,6 +285,7 @@ impl codec::Decode for Publish {
         bytes_read += self.topic_name.decode(src)?;
 
         if self.fixed_header.qos() != QoSLevel::AtMostOnce {
+            codec::require_remaining(src, 2)?;
             self.packet_id = Some(src.get_u16());
             bytes_read += 2;
         }
@@ -293,6 +295,7 @@ impl codec::Decode for Publish {
         bytes_read += var_bytes_read;
         let mut property_bytes_read = 0_usize;
         while property_bytes_read < property_length {
+            codec::require_remaining(src, 1)?;
             let property_type: PropertyType = src.get_u8().try_into()?;
             property_bytes_read += 1;
             match property_type {
@@ -307,6 +310,7 @@ impl codec::Decode for Publish {
                     self.payload_format = Some(value);
                 }
                 PropertyType::TopicAlias => {
+                    codec::require_remaining(src, 2)?;
                     self.topic_alias = Some(src.get_u16());
                     property_bytes_read += 2;
                 }
-- 
2.43.0


From e203821f4a05539b57a029e0cead6d3ab2d5d79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:50 +0000
Subject: [PATCH 04/54] fix: count the bytes of a decoded user property once

---
 vaux-mqtt/src/property.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vaux-mqtt/src/property.rs b/vaux-mqtt/src/property.rs
index e697cd3..06ef371 100644
--- a/vaux-mqtt/src/property.rs
+++ b/vaux-mqtt/src/property.rs
@@ -181,7 +181,7 @@ impl codec::Decode for UserProperty {
     fn decode(&mut self, src: &mut BytesMut) -> Result<usize, MqttCodecError> {
         let (key_value, key_len) = codec::decode_string(src)?;
         let (value, len) = codec::decode_string(src)?;
-        let bytes_read = 2 + key_len + 2 + len;
+        let bytes_read = key_len + len;
         self.0.entry(key_value).or_default().push(value);
         Ok(bytes_read)
     }
-- 
2.43.0


From b17a7c0ff241adb2f39085286b1f6fdf554be17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:01 +0000
Subject: [PATCH 05/54] fix: count binary properties as part of the property
 length when decoding

---
 vaux-macro/src/decode.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/vaux-macro/src/decode.rs b/vaux-macro/src/decode.rs
index 4a20b1c..b80ec41 100644
--- a/vaux-macro/src/decode.rs
+++ b/vaux-macro/src/decode.rs
@@ -445,8 +445,13 @@ fn decode_for_vec(
     field_name: &syn::Ident,
     type_path: &syn::TypePath,
     optional_field: bool,
-    _property_type: &Option<syn::Path>,
+    property_type: &Option<syn::Path>,
 ) -> proc_macro2::TokenStream {
+    let read = if property_type.is_some() {
+        quote! { property_bytes_read }
+    } else {
+        quote! { bytes_read }
+    };
     let decode_stmt = match &type_path.path.segments.last().unwrap().arguments {
         syn::PathArguments::AngleBracketed(args) => match args.args.first().unwrap() {
             syn::GenericArgument::Type(syn::Type::Path(vec_inner_type_path)) => {
@@ -464,14 +469,14 @@ fn decode_for_vec(
                             quote! {
                                 let mut value = Vec::new();
                                 let var_bytes_read = value.decode(src)?;
-                                bytes_read += var_bytes_read;  
+                                #read += var_bytes_read;
                                 self.#field_name = Some(value);
                             }
                         } else {
                             quote! {
                                 let mut value = Vec::new();
                                 let var_bytes_read = value.decode(src)?;
-                                bytes_read += var_bytes_read;
+                                #read += var_bytes_read;
                                 self.#field_name = value;
                             }
                         }
-- 
2.43.0


From 0235dd822a824a9360c380091160d329783e86f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:50 +0000
Subject: [PATCH 06/54] fix: encode will topic before will payload and keep
 empty CONNECT payload fields whose flag is set

---
 vaux-mqtt/src/codec/mod.rs | 17 +++++++++++++
 vaux-mqtt/src/connect.rs   | 50 +++++++++++++++++++++++---------------
 2 files changed, 47 insertions(+), 20 deletions(-)

diff --git a/vaux-mqtt/src/codec/mod.rs b/vaux-mqtt/src/codec/mod.rs
index d7c9d0a..87c834e 100644
--- a/vaux-mqtt/src/codec/mod.rs
+++ b/vaux-mqtt/src/codec/mod.rs
@@ -684,6 +684,23 @@ pub fn encode_array_field(src: &[u8], dest: &mut BytesMut) -> Result<(), MqttCod
     Ok(())
 }
 
+pub fn codec_size_opt_binary(src: &Option<Vec<u8>>) -> u32 {
+    match src {
+        Some(data) => 2 + data.len() as u32,
+        None => 0,
+    }
+}
+
+pub fn encode_opt_binary(
+    src: &Option<Vec<u8>>,
+    dest: &mut BytesMut,
+) -> Result<(), MqttCodecError> {
+    match src {
+        Some(data) => encode_array_field(data, dest),
+        None => Ok(()),
+    }
+}
+
 pub fn decode_array_field(src: &mut BytesMut) -> Result<(Vec<u8>, usize), MqttCodecError> {
     let mut data = Vec::new();
     let bytes_read = data.decode(src)?;
diff --git a/vaux-mqtt/src/connect.rs b/vaux-mqtt/src/connect.rs
index 55d73e3..7b0609c 100644
--- a/vaux-mqtt/src/connect.rs
+++ b/vaux-mqtt/src/connect.rs
@@ -49,14 +49,22 @@ pub struct Connect {
     pub client_id: String,
     #[codec(payload_type = "field")]
     pub(crate) will_properties: Option<WillHeader>,
-    #[codec(payload_type = "field", skip_if = "Vec::is_empty")]
-    pub(crate) will_payload: Vec<u8>,
     #[codec(payload_type = "field")]
     pub(crate) will_topic: Option<String>,
-    #[codec(skip_if = "String::is_empty", payload_type = "field")]
-    username: String,
-    #[codec(skip_if = "Vec::is_empty", payload_type = "field")]
-    password: Vec<u8>,
+    #[codec(
+        payload_type = "field",
+        size_with = "codec::codec_size_opt_binary",
+        encode_with = "codec::encode_opt_binary"
+    )]
+    pub(crate) will_payload: Option<Vec<u8>>,
+    #[codec(payload_type = "field")]
+    username: Option<String>,
+    #[codec(
+        payload_type = "field",
+        size_with = "codec::codec_size_opt_binary",
+        encode_with = "codec::encode_opt_binary"
+    )]
+    password: Option<Vec<u8>>,
 }
 
 impl Default for Connect {
@@ -89,10 +97,10 @@ impl Connect {
             user_properties: property::UserProperty::new(),
             client_id: uuid::Uuid::new_v4().to_string(),
             will_properties: None,
-            will_payload: Vec::new(),
             will_topic: None,
-            username: String::new(),
-            password: Vec::new(),
+            will_payload: None,
+            username: None,
+            password: None,
         }
     }
 
@@ -140,7 +148,7 @@ impl Connect {
         } else {
             self.connect_flags = (self.connect_flags & !CONNECT_FLAG_USERNAME) | 1_u8 << 7;
         }
-        self.username = username.unwrap_or_default();
+        self.username = username;
     }
 
     pub fn password(&self) -> bool {
@@ -153,7 +161,7 @@ impl Connect {
         } else {
             self.connect_flags = (self.connect_flags & !CONNECT_FLAG_PASSWORD) | 1_u8 << 6;
         }
-        self.password = password.unwrap_or_default();
+        self.password = password;
     }
 
     pub fn set_session_expiry_interval(&mut self, interval: u32) {
@@ -168,7 +176,7 @@ impl Connect {
         if self.will() {
             Some(WillMessage {
                 topic: self.will_topic.clone().unwrap_or_default(),
-                payload: bytes::Bytes::from(self.will_payload.clone()),
+                payload: bytes::Bytes::from(self.will_payload.clone().unwrap_or_default()),
                 qos: self.will_qos().unwrap_or(QoSLevel::AtMostOnce),
                 retain: self.will_retain(),
                 header: self.will_properties.clone().unwrap_or_default(),
@@ -180,7 +188,7 @@ impl Connect {
 
     pub fn set_will_message(&mut self, will: WillMessage) {
         self.will_topic = Some(will.topic);
-        self.will_payload = will.payload.to_vec();
+        self.will_payload = Some(will.payload.to_vec());
         self.will_properties = Some(will.header);
         self.set_will(true);
         self.set_will_qos(will.qos);
@@ -279,19 +287,21 @@ impl codec::Decode for Connect {
             bytes_read += will_header.decode(src)?;
             self.will_properties = Some(will_header);
 
-            let mut value = Vec::new();
-            let var_bytes_read = value.decode(src)?;
-            bytes_read += var_bytes_read;
-            self.will_payload = value;
-
             let mut value = String::default();
             bytes_read += value.decode(src)?;
             self.will_topic = Some(value);
+
+            let mut value = Vec::new();
+            let var_bytes_read = value.decode(src)?;
+            bytes_read += var_bytes_read;
+            self.will_payload = Some(value);
         }
 
         // payload: username (only if USERNAME flag set)
         if self.username() {
-            bytes_read += self.username.decode(src)?;
+            let mut value = String::default();
+            bytes_read += value.decode(src)?;
+            self.username = Some(value);
         }
 
         // payload: password (only if PASSWORD flag set)
@@ -299,7 +309,7 @@ impl codec::Decode for Connect {
             let mut value = Vec::new();
             let var_bytes_read = value.decode(src)?;
             bytes_read += var_bytes_read;
-            self.password = value;
+            self.password = Some(value);
         }
 
         Ok(bytes_read)
-- 
2.43.0


From c7e14cd87db0c68992c9417ed072e3e01d47ceb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:50 +0000
Subject: [PATCH 07/54] fix: keep the packet type of decoded PUBACK, PUBREC,
 PUBREL and PUBCOMP packets

---
 vaux-mqtt/src/codec/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vaux-mqtt/src/codec/mod.rs b/vaux-mqtt/src/codec/mod.rs
index 87c834e..b74f396 100644
--- a/vaux-mqtt/src/codec/mod.rs
+++ b/vaux-mqtt/src/codec/mod.rs
@@ -500,22 +500,22 @@ pub fn decode(src: &mut BytesMut) -> Result<Option<(Packet, usize)>, MqttCodecEr
             Ok(Some((Packet::Publish(publish), decode_len)))
         }
         PacketType::PubAck => {
-            let mut puback = PubAck::default();
+            let mut puback = PubAck::new_with_fixed_header(fixed_header)?;
             decode_len += puback.decode(src)?;
             Ok(Some((Packet::PubAck(puback), decode_len)))
         }
         PacketType::PubComp => {
-            let mut pubcomp = PubComp::default();
+            let mut pubcomp = PubComp::new_with_fixed_header(fixed_header)?;
             decode_len += pubcomp.decode(src)?;
             Ok(Some((Packet::PubComp(pubcomp), decode_len)))
         }
         PacketType::PubRec => {
-            let mut pubrec = PubRec::default();
+            let mut pubrec = PubRec::new_with_fixed_header(fixed_header)?;
             decode_len += pubrec.decode(src)?;
             Ok(Some((Packet::PubRec(pubrec), decode_len)))
         }
         PacketType::PubRel => {
-            let mut pubrel = PubRel::default();
+            let mut pubrel = PubRel::new_with_fixed_header(fixed_header)?;
             decode_len += pubrel.decode(src)?;
             Ok(Some((Packet::PubRel(pubrel), decode_len)))
         }
-- 
2.43.0


From d5fefb557a996638d8a981e2d0b60bf04d6966ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:50 +0000
Subject: [PATCH 08/54] fix: accept acknowledgements and DISCONNECT that stop
 after the reason code

---
 vaux-macro/src/decode.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vaux-macro/src/decode.rs b/vaux-macro/src/decode.rs
index b80ec41..647776a 100644
--- a/vaux-macro/src/decode.rs
+++ b/vaux-macro/src/decode.rs
@@ -206,6 +206,7 @@ pub(crate) fn decode_internal(input: TokenStream) -> TokenStream {
                 #(#header_field_decoded)*
                 #abbreviated_check
                 #(#non_abbreviated_header_decoded)*
+                #abbreviated_check
                 #min_size_check
                 #decode_properties
                 #(#decode_field_payload)*
-- 
2.43.0


From 82812a4fe27561e007eac781a23ea7f4e6d5eb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:39 +0000
Subject: [PATCH 09/54] fix: reject packets whose fields do not end where their
 lengths say

---
 vaux-macro/src/decode.rs   |  1 +
 vaux-mqtt/src/codec/mod.rs | 33 +++++++++++++++++++++++++++++++++
 vaux-mqtt/src/connect.rs   |  1 +
 vaux-mqtt/src/publish.rs   |  1 +
 4 files changed, 36 insertions(+)

diff --git a/vaux-macro/src/decode.rs b/vaux-macro/src/decode.rs
index 647776a..dfce8ae 100644
--- a/vaux-macro/src/decode.rs
+++ b/vaux-macro/src/decode.rs
@@ -96,6 +96,7 @@ pub(crate) fn decode_internal(input: TokenStream) -> TokenStream {
                     }
                 }
             }
+            codec::require_property_length(property_length, property_bytes_read)?;
             bytes_read += property_bytes_read;
         }
     } else {
diff --git a/vaux-mqtt/src/codec/mod.rs b/vaux-mqtt/src/codec/mod.rs
index b74f396..b133ac8 100644
--- a/vaux-mqtt/src/codec/mod.rs
+++ b/vaux-mqtt/src/codec/mod.rs
@@ -433,6 +433,16 @@ impl MqttCodecError {
     }
 }
 
+/// Fails when the properties did not end where the property length says they end.
+pub fn require_property_length(expected: usize, actual: usize) -> Result<(), MqttCodecError> {
+    if expected != actual {
+        return Err(MqttCodecError::new(&format!(
+            "malformed packet: property length actual: {actual} expected: {expected}"
+        )));
+    }
+    Ok(())
+}
+
 /// Fails when fewer than `len` bytes are left, reading past the end of the buffer panics.
 pub fn require_remaining(src: &BytesMut, len: usize) -> Result<(), MqttCodecError> {
     if src.remaining() < len {
@@ -483,6 +493,29 @@ pub fn decode(src: &mut BytesMut) -> Result<Option<(Packet, usize)>, MqttCodecEr
         }
         _ => {}
     }
+    let frame_len = decode_len + packet_remaining as usize;
+    // the whole body is here, more data can not complete it
+    let decoded = decode_body(fixed_header, src, decode_len).map_err(|e| match e.kind {
+        ErrorKind::InsufficientData(..) => MqttCodecError::new(&format!(
+            "malformed packet: truncated body: {}",
+            e.reason
+        )),
+        _ => e,
+    })?;
+    if src.has_remaining() {
+        return Err(MqttCodecError::new(
+            "malformed packet: data left after the end of the packet",
+        ));
+    }
+    Ok(decoded.map(|(packet, _)| (packet, frame_len)))
+}
+
+/// Decodes the variable header and payload of a packet, `src` ends with the packet.
+fn decode_body(
+    fixed_header: FixedHeader,
+    src: &mut BytesMut,
+    mut decode_len: usize,
+) -> Result<Option<(Packet, usize)>, MqttCodecError> {
     match fixed_header.packet_type {
         PacketType::PingReq => Ok(Some((Packet::PingRequest(crate::PingReq::default()), decode_len))),
         PacketType::PingResp => Ok(Some((
diff --git a/vaux-mqtt/src/connect.rs b/vaux-mqtt/src/connect.rs
index 7b0609c..8b822d7 100644
--- a/vaux-mqtt/src/connect.rs
+++ b/vaux-mqtt/src/connect.rs
@@ -276,6 +276,7 @@ impl codec::Decode for Connect {
                 }
             }
         }
+        codec::require_property_length(property_length, property_bytes_read)?;
         bytes_read += property_bytes_read;
 
         // payload: client_id (always present)
diff --git a/vaux-mqtt/src/publish.rs b/vaux-mqtt/src/publish.rs
index 94ee237..438b72d 100644
--- a/vaux-mqtt/src/publish.rs
+++ b/vaux-mqtt/src/publish.rs
@@ -349,6 +349,7 @@ impl codec::Decode for Publish {
                 }
             }
         }
+        codec::require_property_length(property_length, property_bytes_read)?;
         bytes_read += property_bytes_read;
 
         let (value, decode_bytes_read) = codec::decode_opt_vec_u8_raw(src)?;
-- 
2.43.0


From c3653427a40628af58a41d6934cb7d8c92ba1caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:58 +0000
Subject: [PATCH 10/54] fix: drop packet identifier and DUP when a PUBLISH is
 changed to QoS 0

---
 vaux-mqtt/src/publish.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vaux-mqtt/src/publish.rs b/vaux-mqtt/src/publish.rs
index 438b72d..7e69a2f 100644
--- a/vaux-mqtt/src/publish.rs
+++ b/vaux-mqtt/src/publish.rs
@@ -199,6 +199,11 @@ impl Publish {
 
     pub fn set_qos(&mut self, qos: QoSLevel) {
         self.fixed_header.set_qos(qos);
+        if qos == QoSLevel::AtMostOnce {
+            // MQTT v5 3.3.1.1, 3.3.2.2: no DUP and no packet identifier with QoS 0
+            self.fixed_header.set_dup(false);
+            self.packet_id = None;
+        }
     }
 
     pub fn with_qos(mut self, qos: QoSLevel) -> Self {
-- 
2.43.0


From f40b10c4b4fe187bd098c250c93cfcb3bbbb7052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:47 +0000
Subject: [PATCH 11/54] fix: keep the rest of the read buffer after reading a
 packet with its raw bytes

---
 vaux-async/src/stream/packet.rs | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/vaux-async/src/stream/packet.rs b/vaux-async/src/stream/packet.rs
index a4a2924..7c2e811 100644
--- a/vaux-async/src/stream/packet.rs
+++ b/vaux-async/src/stream/packet.rs
@@ -98,24 +98,17 @@ impl PacketStream {
                 match decode(bytes_mut) {
                     Ok(data_read) => {
                         if let Some((packet, decode_len)) = data_read {
-                            if with_bytes {
-                                // split the buffer into packet and remaining bytes
-                                let packet_bytes = bytes_mut.split_to(decode_len);
-                                // resize the buffer if less than requested initial size
-                                if self.read_buffer.len() < self.initial_buffer_size {
-                                    self.read_buffer.resize(self.initial_buffer_size, 0);
-                                }
-                                return Ok(Some((packet, Some(packet_bytes.freeze()))));
+                            // decoding takes the packet out of `bytes_mut`, not out of the buffer
+                            let packet_bytes = with_bytes
+                                .then(|| Bytes::copy_from_slice(&self.read_buffer[0..decode_len]));
+                            if decode_len < bytes_read {
+                                self.read_buffer.copy_within(decode_len..bytes_read, 0);
+                                // adjust offset to end of decoded bytes
+                                self.read_offset = bytes_read - decode_len;
                             } else {
-                                if decode_len < bytes_read {
-                                    self.read_buffer.copy_within(decode_len..bytes_read, 0);
-                                    // adjust offset to end of decoded bytes
-                                    self.read_offset = bytes_read - decode_len;
-                                } else {
-                                    self.read_offset = 0;
-                                }
-                                return Ok(Some((packet, None)));
+                                self.read_offset = 0;
                             }
+                            return Ok(Some((packet, packet_bytes)));
                         } else {
                             return Ok(None);
                         }
-- 
2.43.0


From f85e65f986418f36416b7f4ef9fc0b055e3116b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:47 +0000
Subject: [PATCH 12/54] fix: end reading when the peer closes in the middle of
 a packet

---
 vaux-async/src/stream/packet.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vaux-async/src/stream/packet.rs b/vaux-async/src/stream/packet.rs
index 7c2e811..f5519d3 100644
--- a/vaux-async/src/stream/packet.rs
+++ b/vaux-async/src/stream/packet.rs
@@ -133,8 +133,12 @@ impl PacketStream {
                 .await
             {
                 Ok(len) => {
-                    if len == 0 && bytes_read == 0 {
-                        return Ok(None);
+                    if len == 0 {
+                        if bytes_read == 0 {
+                            return Ok(None);
+                        }
+                        // the peer closed in the middle of a packet
+                        return Err(Error::Io(std::io::ErrorKind::UnexpectedEof.into()));
                     }
                     bytes_read += len;
                     self.read_offset = bytes_read;
-- 
2.43.0


From 1edeeb84151511c082ac512fccb46ffcc9fa9b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:48 +0000
Subject: [PATCH 13/54] fix: start the read buffer no larger than its maximum
 and never empty

---
 vaux-async/src/stream/packet.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/vaux-async/src/stream/packet.rs b/vaux-async/src/stream/packet.rs
index f5519d3..b135c61 100644
--- a/vaux-async/src/stream/packet.rs
+++ b/vaux-async/src/stream/packet.rs
@@ -30,7 +30,6 @@ impl Display for Error {
 pub struct PacketStream {
     read_buffer: Vec<u8>,
     read_offset: usize,
-    initial_buffer_size: usize,
     max_buffer_size: usize,
     stream: AsyncMqttStream,
 }
@@ -41,11 +40,16 @@ impl PacketStream {
         initial_buffer_size: Option<usize>,
         max_buffer_size: Option<usize>,
     ) -> Self {
+        let max_buffer_size = max_buffer_size.unwrap_or(MAX_BUFFER_SIZE);
+        // never more than the maximum, and never empty as that can not be doubled
+        let initial_buffer_size = initial_buffer_size
+            .unwrap_or(READ_BUFFER_SIZE)
+            .min(max_buffer_size)
+            .max(1);
         Self {
-            read_buffer: vec![0; initial_buffer_size.unwrap_or(READ_BUFFER_SIZE)],
+            read_buffer: vec![0; initial_buffer_size],
             read_offset: 0,
-            initial_buffer_size: initial_buffer_size.unwrap_or(READ_BUFFER_SIZE),
-            max_buffer_size: max_buffer_size.unwrap_or(MAX_BUFFER_SIZE),
+            max_buffer_size,
             stream,
         }
     }
-- 
2.43.0


From daf3ed36d3abaca21374fed7dd3af3f1f52be1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:17 +0000
Subject: [PATCH 14/54] fix: flush the transport after writing a packet

---
 vaux-async/src/stream/packet.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vaux-async/src/stream/packet.rs b/vaux-async/src/stream/packet.rs
index b135c61..c875f6e 100644
--- a/vaux-async/src/stream/packet.rs
+++ b/vaux-async/src/stream/packet.rs
@@ -175,6 +175,9 @@ impl PacketStream {
         if let Err(e) = self.stream.write_all(&dest).await {
             return Err(Error::Io(e));
         }
+        if let Err(e) = self.stream.flush().await {
+            return Err(Error::Io(e));
+        }
         Ok(())
     }
 
-- 
2.43.0


From 14b3f2ea47f000304cdf61559695024b4578e52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:26 +0000
Subject: [PATCH 15/54] fix: wait for session control messages instead of
 polling for them

---
 vaux-broker/src/lib.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index e5d7343..abb9f56 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -14,7 +14,7 @@ use tokio::{
     net::TcpListener,
     select,
     sync::{mpsc::Receiver, mpsc::Sender, RwLock},
-    task::{yield_now, JoinHandle},
+    task::JoinHandle,
 };
 use topic::TopicTree;
 use uuid::Uuid;
@@ -239,6 +239,9 @@ impl Broker {
                                 stream.write(&mut Packet::Publish(*publish)).await?;
                             }
                         }
+                    } else {
+                        // no sender is left: there is nothing more to wait for
+                        session_control = None;
                     }
                 }
                 _ = Broker::keep_alive_timer(keep_alive) => {
@@ -428,13 +431,9 @@ impl Broker {
     async fn handle_control(
         control_channel: &mut Option<Receiver<SessionControl>>,
     ) -> Option<SessionControl> {
-        loop {
-            if let Some(rx) = control_channel {
-                if let Some(control) = rx.recv().await {
-                    return Some(control);
-                }
-            }
-            yield_now().await;
+        match control_channel {
+            Some(rx) => rx.recv().await,
+            None => std::future::pending().await,
         }
     }
 
-- 
2.43.0


From f659212968bfa3b5a3a0681764bcbc2eeb3034a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:23 +0000
Subject: [PATCH 16/54] fix: do not match topics that start with '$' by a
 leading wildcard

---
 vaux-broker/src/topic.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vaux-broker/src/topic.rs b/vaux-broker/src/topic.rs
index f9d4fac..b8d97ee 100644
--- a/vaux-broker/src/topic.rs
+++ b/vaux-broker/src/topic.rs
@@ -127,6 +127,8 @@ impl TopicTree {
         }
 
         let segment = segments[depth];
+        // a leading wildcard does not match a topic that starts with '$' [MQTT-4.7.2-1]
+        let wildcards = depth > 0 || !segment.starts_with('$');
 
         // exact match on this segment
         if let Some(&child_idx) = node.children.get(segment) {
@@ -134,12 +136,12 @@ impl TopicTree {
         }
 
         // '+' wildcard matches any single level
-        if let Some(&plus_idx) = node.children.get("+") {
+        if let Some(&plus_idx) = node.children.get("+").filter(|_| wildcards) {
             self.collect_matches(plus_idx, segments, depth + 1, results);
         }
 
         // '#' child matches this level and everything below
-        if let Some(&hash_idx) = node.children.get("#") {
+        if let Some(&hash_idx) = node.children.get("#").filter(|_| wildcards) {
             let hash_node = &self.nodes[hash_idx as usize];
             results.extend(hash_node.wildcard_subscribers.iter().cloned());
         }
-- 
2.43.0


From 4a29ec8e4b7672bdd0563fc98a6a57dea912faab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:23 +0000
Subject: [PATCH 17/54] fix: answer UNSUBSCRIBE for an unknown filter with No
 subscription existed

---
 vaux-broker/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index abb9f56..c4a5fb7 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -421,7 +421,7 @@ impl Broker {
             let reason = if tree.unsubscribe(topic, session_id) {
                 Reason::Success
             } else {
-                Reason::NoSubscribers
+                Reason::NoSubscriptionExisted
             };
             unsuback.reason_code.push(reason);
         }
-- 
2.43.0


From 063612d24a39c547573bb90e290fb18893528c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:23 +0000
Subject: [PATCH 18/54] fix: do not forward the duplicate mark of the publisher

---
 vaux-broker/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index c4a5fb7..2805b21 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -669,6 +669,8 @@ impl Broker {
 
             if let Some(target_session) = session_pool.get_active(&sub.session_id) {
                 let mut out = publish.clone();
+                // the duplicate mark of the publisher's connection says nothing about this one
+                let _ = out.set_dup(false);
                 out.set_qos(qos);
                 if qos != QoSLevel::AtMostOnce {
                     let mut target = target_session.write().await;
-- 
2.43.0


From 9b53d7a9276b4f8239b403c4cd3cd99f3ffed636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:52 +0000
Subject: [PATCH 19/54] fix: publish a will with its user properties

---
 vaux-broker/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index 2805b21..996bbbd 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -648,6 +648,7 @@ impl Broker {
         publish.content_type = will.header.content_type.clone();
         publish.response_topic = will.header.response_topic.clone();
         publish.correlation_data = will.header.correlation_data.clone();
+        publish.user_properties = will.header.user_properties.clone();
         if let Some(format) = will.header.payload_format {
             publish.set_payload_format(format);
         }
-- 
2.43.0


From 1ed93ea7c070a1dac5fc985101efc700e04c1f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:52 +0000
Subject: [PATCH 20/54] fix: skip packet identifiers that are still
 unacknowledged

---
 vaux-broker/src/session.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vaux-broker/src/session.rs b/vaux-broker/src/session.rs
index 91e8f18..f16f32a 100644
--- a/vaux-broker/src/session.rs
+++ b/vaux-broker/src/session.rs
@@ -275,8 +275,12 @@ impl Session {
     }
 
     pub fn next_packet_id(&mut self) -> u16 {
-        let id = self.next_packet_id;
-        self.next_packet_id = self.next_packet_id.wrapping_add(1);
+        let mut id = self.next_packet_id;
+        // an identifier that is still unacknowledged must not be used again
+        while self.pending_ack.contains_key(&id) && self.pending_ack.len() < u16::MAX as usize {
+            id = id.checked_add(1).unwrap_or(1);
+        }
+        self.next_packet_id = id.wrapping_add(1);
         if self.next_packet_id == 0 {
             self.next_packet_id = 1;
         }
-- 
2.43.0


From fa99917b69881d44860e665e409f2a906e28744d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:08 +0000
Subject: [PATCH 21/54] fix: redeliver in order and keep messages pending until
 they are acknowledged

---
 vaux-broker/src/lib.rs     |  6 +-----
 vaux-broker/src/session.rs | 20 ++++++++++++++++----
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index 996bbbd..a4c90d4 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -264,15 +264,11 @@ impl Broker {
                                         let mut session = session.write().await;
                                         keep_alive = session.keep_alive();
                                         session_control = session.take_control_receiver();
-                                        session.drain_pending()
+                                        session.pending()
                                     };
                                     for (packet_id, mut publish) in pending {
                                         publish.set_dup(true).ok();
                                         let _ = publish.set_packet_id(Some(packet_id));
-                                        {
-                                            let mut s = session.write().await;
-                                            s.track_qos_publish(packet_id, publish.clone());
-                                        }
                                         stream.write(&mut Packet::Publish(publish)).await?;
                                     }
                                     client_session = Some(Arc::clone(&session));
diff --git a/vaux-broker/src/session.rs b/vaux-broker/src/session.rs
index f16f32a..b48b1f2 100644
--- a/vaux-broker/src/session.rs
+++ b/vaux-broker/src/session.rs
@@ -190,7 +190,9 @@ pub struct Session {
     will_message: Option<WillMessage>,
     pending_will: Option<CancellationToken>,
     next_packet_id: u16,
-    pending_ack: HashMap<u16, Publish>,
+    /// unacknowledged messages with their place in the order of first delivery
+    pending_ack: HashMap<u16, (u64, Publish)>,
+    next_pending: u64,
     control: (Sender<SessionControl>, Option<Receiver<SessionControl>>),
 }
 
@@ -213,6 +215,7 @@ impl Session {
             pending_will: None,
             next_packet_id: 1,
             pending_ack: HashMap::new(),
+            next_pending: 0,
             control: (sender, Some(receiver)),
         }
     }
@@ -288,7 +291,9 @@ impl Session {
     }
 
     pub fn track_qos_publish(&mut self, packet_id: u16, publish: Publish) {
-        self.pending_ack.insert(packet_id, publish);
+        self.pending_ack
+            .insert(packet_id, (self.next_pending, publish));
+        self.next_pending += 1;
     }
 
     pub fn acknowledge(&mut self, packet_id: u16) -> bool {
@@ -299,8 +304,15 @@ impl Session {
         self.pending_ack.len()
     }
 
-    pub fn drain_pending(&mut self) -> Vec<(u16, Publish)> {
-        self.pending_ack.drain().collect()
+    /// The unacknowledged messages in the order of their first delivery. They stay
+    /// pending until they are acknowledged.
+    pub fn pending(&self) -> Vec<(u16, Publish)> {
+        let mut pending: Vec<_> = self.pending_ack.iter().collect();
+        pending.sort_by_key(|(_, (order, _))| *order);
+        pending
+            .into_iter()
+            .map(|(packet_id, (_, publish))| (*packet_id, publish.clone()))
+            .collect()
     }
 
     pub fn id(&self) -> &str {
-- 
2.43.0


From 11e64c92ee1d5fad7f272644c8a58c29b814d023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:57 +0000
Subject: [PATCH 22/54] fix: bind a session to one connection and release it
 however that connection ends

---
 vaux-broker/src/lib.rs | 317 +++++++++++++++++++++++++----------------
 1 file changed, 194 insertions(+), 123 deletions(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index a4c90d4..733158d 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -15,6 +15,7 @@ use tokio::{
     select,
     sync::{mpsc::Receiver, mpsc::Sender, RwLock},
     task::JoinHandle,
+    time::{timeout, Instant},
 };
 use topic::TopicTree;
 use uuid::Uuid;
@@ -28,6 +29,8 @@ use vaux_mqtt::{
 };
 
 const INIT_STREAM_BUFFER_SIZE: usize = 4096;
+/// how long closing a connection may wait for the client
+const CLOSE_TIMEOUT: Duration = Duration::from_millis(500);
 
 #[derive(Debug)]
 pub enum BrokerError {
@@ -111,6 +114,43 @@ impl Default for Broker {
     }
 }
 
+/// A connection's hold on its session. The control channel is replaced when another
+/// connection takes the session over, which closes this end of it.
+#[derive(Default)]
+struct SessionLink {
+    session: Option<Arc<RwLock<Session>>>,
+    control: Option<Receiver<SessionControl>>,
+    /// messages to deliver again when the session is resumed
+    pending: Vec<(u16, Publish)>,
+}
+
+impl SessionLink {
+    /// Takes hold of a session. Called while the session pool is locked, so that no other
+    /// connection can get in between.
+    fn attach(&mut self, shared: &Arc<RwLock<Session>>, session: &mut Session) {
+        self.session = Some(Arc::clone(shared));
+        self.control = session.take_control_receiver();
+        self.pending = session.pending();
+    }
+
+    /// True once another connection has taken the session over.
+    fn superseded(&self) -> bool {
+        self.control.as_ref().is_some_and(|control| control.is_closed())
+    }
+}
+
+/// Bounds what is done for a client by its keep-alive: a client that does not read must not
+/// hold on to its connection for ever.
+async fn within<T, E: Into<BrokerError>>(
+    limit: Duration,
+    work: impl std::future::Future<Output = Result<T, E>>,
+) -> Result<T, BrokerError> {
+    match timeout(limit, work).await {
+        Ok(result) => result.map_err(Into::into),
+        Err(_) => Err(BrokerError::Io(std::io::ErrorKind::TimedOut.into())),
+    }
+}
+
 impl Broker {
     pub fn new_with_config(config: config::Config) -> Self {
         let (sender, receiver) = tokio::sync::mpsc::channel(config.session_channel_size);
@@ -204,97 +244,85 @@ impl Broker {
     async fn handle_client(
         stream: &mut PacketStream,
         state: BrokerState,
+    ) -> Result<(), BrokerError> {
+        let mut link = SessionLink::default();
+        let result = Broker::serve_client(stream, &state, &mut link).await;
+        // however the connection ended, the session must not stay behind as connected
+        Broker::release_session(&link, &state).await;
+        let _ = timeout(CLOSE_TIMEOUT, stream.shutdown()).await;
+        result
+    }
+
+    async fn serve_client(
+        stream: &mut PacketStream,
+        state: &BrokerState,
+        link: &mut SessionLink,
     ) -> Result<(), BrokerError> {
         let mut connected = false;
-        let mut client_session: Option<Arc<RwLock<Session>>> = None;
-        let mut session_control: Option<Receiver<SessionControl>> = None;
         let mut keep_alive = DEFAULT_KEEP_ALIVE;
+        let mut last_packet = Instant::now();
         loop {
             select! {
-                ctrl = Broker::handle_control(&mut session_control) => {
-                    if let Some(control) = ctrl {
-                        match control {
-                            SessionControl::Disconnect(reason) => {
-                                if let Some(session) = &client_session {
-                                    let session_id = {
-                                        let session = session.read().await;
-                                        (*session).id().to_string()
-                                    };
-                                    match reason {
-                                        Reason::SessionTakeOver => {
-                                            // the session will already be deactivated and taken over
-                                            // by another client, just send the disconnect packet
-                                        }
-                                        _ => {
-                                            state.session_pool.write().await.deactivate(&session_id).await;
-                                        }
-                                    }
-                                    stream.write(&mut Packet::Disconnect(Disconnect::new(reason))).await?;
-                                } else {
-                                    stream.shutdown().await?;
-                                    return Ok(());
-                                }
-                            }
-                            SessionControl::Deliver(publish) => {
-                                stream.write(&mut Packet::Publish(*publish)).await?;
-                            }
+                ctrl = Broker::handle_control(&mut link.control) => {
+                    // without a sender the session has been taken over by another connection
+                    match ctrl.unwrap_or(SessionControl::Disconnect(Reason::SessionTakeOver)) {
+                        SessionControl::Disconnect(reason) => {
+                            Broker::farewell(stream, reason).await;
+                            return Ok(());
+                        }
+                        SessionControl::Deliver(publish) => {
+                            within(keep_alive, stream.write(&mut Packet::Publish(*publish))).await?;
                         }
-                    } else {
-                        // no sender is left: there is nothing more to wait for
-                        session_control = None;
                     }
                 }
-                _ = Broker::keep_alive_timer(keep_alive) => {
-                    if let Some(session) = &client_session {
+                _ = Broker::keep_alive_timer(last_packet + keep_alive) => {
+                    if let Some(session) = &link.session {
                         let session_id = session.read().await.id().to_string();
                         tracing::info!(session_id = %session_id, "keep-alive expired");
-                        Broker::initiate_will(session, &state).await;
-                        state.session_pool.write().await.deactivate(&session_id).await;
-                    } else {
-                        stream.shutdown().await?;
-                        return Ok(());
+                        Broker::farewell(stream, Reason::KeepAliveTimeout).await;
                     }
+                    return Ok(());
                 }
                 packet_result = stream.read() => {
                     match packet_result {
                         Ok(Some(packet)) => {
+                            last_packet = Instant::now();
                             if !connected {
-                                if let Some(session) = Broker::handle_pre_connect(packet, stream, &state).await? {
-                                    let pending = {
-                                        let mut session = session.write().await;
-                                        keep_alive = session.keep_alive();
-                                        session_control = session.take_control_receiver();
-                                        session.pending()
-                                    };
-                                    for (packet_id, mut publish) in pending {
-                                        publish.set_dup(true).ok();
-                                        let _ = publish.set_packet_id(Some(packet_id));
-                                        stream.write(&mut Packet::Publish(publish)).await?;
-                                    }
-                                    client_session = Some(Arc::clone(&session));
-                                } else {
-                                    continue;
+                                let accepted = within(
+                                    keep_alive,
+                                    Broker::handle_pre_connect(packet, stream, state, link),
+                                ).await?;
+                                let Some(session) = accepted else {
+                                    return Ok(());
+                                };
+                                keep_alive = session.read().await.keep_alive();
+                                for (packet_id, mut publish) in std::mem::take(&mut link.pending) {
+                                    publish.set_dup(true).ok();
+                                    let _ = publish.set_packet_id(Some(packet_id));
+                                    within(keep_alive, stream.write(&mut Packet::Publish(publish))).await?;
                                 }
                                 connected = true;
-                            } else if let Some(session) = &client_session {
-                                Broker::handle_packet(packet, stream, Arc::clone(session), &state).await?;
+                            } else if let Some(session) = &link.session {
+                                let proceed = within(
+                                    keep_alive,
+                                    Broker::handle_packet(packet, stream, Arc::clone(session), link, state),
+                                ).await?;
+                                if !proceed {
+                                    return Ok(());
+                                }
                             }
                         }
                         Ok(None) => {
-                            if let Some(session) = &client_session {
+                            if let Some(session) = &link.session {
                                 let session_id = session.read().await.id().to_string();
                                 tracing::info!(session_id = %session_id, "connection closed");
-                                Broker::initiate_will(session, &state).await;
-                                state.session_pool.write().await.deactivate(&session_id).await;
                             }
                             return Ok(());
                         }
                         Err(e) => {
-                            if let Some(session) = &client_session {
+                            if let Some(session) = &link.session {
                                 let session_id = session.read().await.id().to_string();
                                 tracing::warn!(session_id = %session_id, error = %e, "connection error");
-                                Broker::initiate_will(session, &state).await;
-                                state.session_pool.write().await.deactivate(&session_id).await;
                             }
                             return Err(e.into());
                         }
@@ -304,35 +332,70 @@ impl Broker {
         }
     }
 
+    /// Deactivates the session of a connection that has ended and sees to its will, unless
+    /// the session belongs to another connection by now.
+    async fn release_session(link: &SessionLink, state: &BrokerState) {
+        let Some(session) = &link.session else {
+            return;
+        };
+        let will = {
+            let mut session_pool = state.session_pool.write().await;
+            if link.superseded() {
+                return;
+            }
+            let session_id = session.read().await.id().to_string();
+            session_pool.deactivate(&session_id).await;
+            Broker::initiate_will(session, state).await
+        };
+        if let Some(will) = will {
+            Broker::publish_will(&will, state).await;
+        }
+    }
+
+    /// Tells a client why its connection is about to be closed, if it can still be told.
+    async fn farewell(stream: &mut PacketStream, reason: Reason) {
+        let mut packet = Packet::Disconnect(Disconnect::new(reason));
+        let _ = timeout(CLOSE_TIMEOUT, stream.write(&mut packet)).await;
+    }
+
     async fn handle_packet(
         packet: Packet,
         stream: &mut PacketStream,
         session: Arc<RwLock<Session>>,
+        link: &SessionLink,
         state: &BrokerState,
-    ) -> Result<(), BrokerError> {
+    ) -> Result<bool, BrokerError> {
         match packet {
             Packet::PingRequest(_p) => {
                 let mut packet = PingResponse(PingResp::default());
                 stream.write(&mut packet).await?;
-                Ok(())
+                Ok(true)
             }
             Packet::Subscribe(subscribe) => {
                 let session_id = {
                     let session = session.read().await;
                     session.id().to_string()
                 };
-                let suback = Broker::handle_subscribe(&subscribe, &session_id, state).await;
+                let Some(suback) =
+                    Broker::handle_subscribe(&subscribe, &session_id, link, state).await
+                else {
+                    return Ok(true);
+                };
                 stream.write(&mut Packet::SubAck(suback)).await?;
-                Ok(())
+                Ok(true)
             }
             Packet::Unsubscribe(unsubscribe) => {
                 let session_id = {
                     let session = session.read().await;
                     session.id().to_string()
                 };
-                let unsuback = Broker::handle_unsubscribe(&unsubscribe, &session_id, state).await;
+                let Some(unsuback) =
+                    Broker::handle_unsubscribe(&unsubscribe, &session_id, link, state).await
+                else {
+                    return Ok(true);
+                };
                 stream.write(&mut Packet::UnsubAck(unsuback)).await?;
-                Ok(())
+                Ok(true)
             }
             Packet::Publish(publish) => {
                 let session_id = {
@@ -355,43 +418,43 @@ impl Broker {
                     }
                 }
                 Broker::route_publish(&publish, &session_id, state).await;
-                Ok(())
+                Ok(true)
             }
             Packet::PubAck(puback) => {
                 let mut session = session.write().await;
-                session.acknowledge(puback.packet_id);
-                Ok(())
+                if !link.superseded() {
+                    session.acknowledge(puback.packet_id);
+                }
+                Ok(true)
             }
             Packet::Disconnect(packet) => {
                 if let Reason::Success = packet.reason {
                     let mut session = session.write().await;
-                    session.clear_will();
-                } else {
-                    Broker::initiate_will(&session, state).await;
+                    if !link.superseded() {
+                        session.clear_will();
+                    }
                 }
-                let session_id = {
-                    let session = session.read().await;
-                    (*session).id().to_string()
-                };
-                state
-                    .session_pool
-                    .write()
-                    .await
-                    .deactivate(&session_id)
-                    .await;
-                Ok(())
+                Ok(false)
+            }
+            Packet::Connect(_) => {
+                Broker::farewell(stream, Reason::ProtocolErr).await;
+                Ok(false)
             }
-            _ => Ok(()),
+            _ => Ok(true),
         }
     }
 
     async fn handle_subscribe(
         subscribe: &Subscribe,
         session_id: &str,
+        link: &SessionLink,
         state: &BrokerState,
-    ) -> SubAck {
+    ) -> Option<SubAck> {
         let mut suback = SubAck::new_with_packet_id(subscribe.packet_id).unwrap_or_default();
         let mut tree = state.topic_tree.write().await;
+        if link.superseded() {
+            return None;
+        }
         for filter in &subscribe.filter {
             let granted_qos = filter.qos();
             tree.subscribe(&filter.filter, session_id, granted_qos, filter.no_local());
@@ -402,17 +465,21 @@ impl Broker {
             };
             suback.reason_codes.push(reason);
         }
-        suback
+        Some(suback)
     }
 
     async fn handle_unsubscribe(
         unsubscribe: &Unsubscribe,
         session_id: &str,
+        link: &SessionLink,
         state: &BrokerState,
-    ) -> UnsubAck {
+    ) -> Option<UnsubAck> {
         let mut unsuback = UnsubAck::default();
         unsuback.packet_id = unsubscribe.packet_id;
         let mut tree = state.topic_tree.write().await;
+        if link.superseded() {
+            return None;
+        }
         for topic in &unsubscribe.topics {
             let reason = if tree.unsubscribe(topic, session_id) {
                 Reason::Success
@@ -421,7 +488,7 @@ impl Broker {
             };
             unsuback.reason_code.push(reason);
         }
-        unsuback
+        Some(unsuback)
     }
 
     async fn handle_control(
@@ -437,6 +504,7 @@ impl Broker {
         packet: Packet,
         stream: &mut PacketStream,
         state: &BrokerState,
+        link: &mut SessionLink,
     ) -> Result<Option<Arc<RwLock<Session>>>, BrokerError> {
         match packet {
             Packet::Connect(packet) => {
@@ -445,15 +513,9 @@ impl Broker {
                     let mut ack = ConnAck::default();
                     ack.reason = Reason::ServerBusy;
                     stream.write(&mut Packet::ConnAck(ack)).await?;
-                    stream.shutdown().await?;
                     return Ok(None);
                 }
-                Broker::handle_connect(*packet, stream, state).await
-            }
-            Packet::PingRequest(_packet) => {
-                let mut packet = PingResponse(PingResp::default());
-                stream.write(&mut packet).await?;
-                Ok(None)
+                Broker::handle_connect(*packet, stream, state, link).await
             }
             _ => {
                 let header = Disconnect::new(Reason::ProtocolErr);
@@ -468,6 +530,7 @@ impl Broker {
         connect: Connect,
         stream: &mut PacketStream,
         state: &BrokerState,
+        link: &mut SessionLink,
     ) -> Result<Option<Arc<RwLock<Session>>>, BrokerError> {
         let session_id: String;
         let mut ack = ConnAck::default();
@@ -481,12 +544,12 @@ impl Broker {
         // handle keep alive request
         let keep_alive = if connect.keep_alive < default_keep_alive_secs {
             ack.set_server_keep_alive(default_keep_alive_secs);
-            Duration::from_secs((default_keep_alive_secs as f32 * BROKER_KEEP_ALIVE_FACTOR) as u64)
+            Duration::from_secs(default_keep_alive_secs.into()).mul_f32(BROKER_KEEP_ALIVE_FACTOR)
         } else if connect.keep_alive > max_keep_alive_secs {
             ack.set_server_keep_alive(max_keep_alive_secs);
-            Duration::from_secs((max_keep_alive_secs as f32 * BROKER_KEEP_ALIVE_FACTOR) as u64)
+            Duration::from_secs(max_keep_alive_secs.into()).mul_f32(BROKER_KEEP_ALIVE_FACTOR)
         } else {
-            Duration::from_secs((connect.keep_alive as f32 * BROKER_KEEP_ALIVE_FACTOR) as u64)
+            Duration::from_secs(connect.keep_alive.into()).mul_f32(BROKER_KEEP_ALIVE_FACTOR)
         };
         // handle the session expiry request
         let session_expiry = if let Some(requested_expiry) = connect.session_expiry_interval {
@@ -524,17 +587,22 @@ impl Broker {
             tracing::info!(session_id = %session_id, "connection rejected: max active sessions reached");
             ack.reason = Reason::QuotaExceeded;
             stream.write(&mut Packet::ConnAck(ack)).await?;
-            stream.shutdown().await?;
             return Ok(None);
         }
 
+        // the will of a connection that loses its session to this one
+        let mut lost_will: Option<WillMessage> = None;
         let session: Arc<RwLock<Session>> = if connect.clean_start() {
             if let Some(existing_session) = session_pool.remove(session_id.as_str()) {
-                let connected = { existing_session.read().await.connected() };
-                if connected {
-                    let _ = Broker::handle_takeover(Arc::clone(&existing_session)).await;
+                let mut existing_session = existing_session.write().await;
+                if existing_session.connected() {
+                    lost_will = existing_session.take_will();
                 }
+                // an old connection loses its hold on the session
+                existing_session.reset_control(channel_size);
             }
+            // nothing of an earlier session is kept
+            state.topic_tree.write().await.unsubscribe_all(&session_id);
             let mut new_session =
                 Session::new(session_id.clone(), connect.will_message(), keep_alive, channel_size);
             new_session.set_connected(true);
@@ -548,16 +616,20 @@ impl Broker {
                     ack.set_session_present(true);
                     session.cancel_pending_will();
                     session.set_will(connect.will_message());
+                    session.set_keep_alive(keep_alive);
                     session.reset_control(channel_size);
                 }
                 session
             } else if let Some(session) = session_pool.get_active(&session_id) {
                 {
-                    let _ = Broker::handle_takeover(Arc::clone(&session)).await;
                     let mut session = session.write().await;
                     ack.set_session_present(true);
                     session.cancel_pending_will();
+                    // the session goes on, so that only a will without delay is due
+                    lost_will = session.take_will().filter(|w| w.header.will_delay.unwrap_or(0) == 0);
                     session.set_will(connect.will_message());
+                    session.set_keep_alive(keep_alive);
+                    // the old connection loses its hold on the session
                     session.reset_control(channel_size);
                     session.set_last_active();
                 }
@@ -575,34 +647,32 @@ impl Broker {
                 new_session
             }
         };
-        drop(session_pool);
         {
-            let mut session = session.write().await;
+            let mut guard = session.write().await;
             if let Some(expiry) = session_expiry {
-                session.set_session_expiry(expiry);
+                guard.set_session_expiry(expiry);
             }
+            link.attach(&session, &mut guard);
+        }
+        drop(session_pool);
+        if let Some(will) = lost_will {
+            Broker::publish_will(&will, state).await;
         }
         tracing::info!(session_id = %session_id, "client connected");
         stream.write(&mut Packet::ConnAck(ack)).await?;
         Ok(Some(Arc::clone(&session)))
     }
 
-    async fn keep_alive_timer(keep_alive: Duration) {
-        tokio::time::sleep(keep_alive).await;
+    async fn keep_alive_timer(deadline: Instant) {
+        tokio::time::sleep_until(deadline).await;
     }
 
-    async fn handle_takeover(session: Arc<RwLock<Session>>) -> Result<(), BrokerError> {
-        session
-            .read()
-            .await
-            .disconnect(Reason::SessionTakeOver)
-            .await;
-        // TODO wait for disconnect to complete from session state
-        tokio::time::sleep(Duration::from_millis(500)).await;
-        Ok(())
-    }
-
-    async fn initiate_will(session: &Arc<RwLock<Session>>, state: &BrokerState) {
+    /// Starts the delay of the session's will. A will without a delay is returned, to be
+    /// published at once.
+    async fn initiate_will(
+        session: &Arc<RwLock<Session>>,
+        state: &BrokerState,
+    ) -> Option<WillMessage> {
         let will = {
             let mut session = session.write().await;
             session.take_will()
@@ -612,7 +682,7 @@ impl Broker {
             tracing::debug!(topic = %will.topic, "publishing will message");
             let delay_secs = will.header.will_delay.unwrap_or(0);
             if delay_secs == 0 {
-                Broker::publish_will(&will, state).await;
+                return Some(will);
             } else {
                 let token = tokio_util::sync::CancellationToken::new();
                 let child_token = token.child_token();
@@ -629,6 +699,7 @@ impl Broker {
                 session.set_pending_will(token);
             }
         }
+        None
     }
 
     async fn publish_will(will: &WillMessage, state: &BrokerState) {
-- 
2.43.0


From 6f0ccec1efadd80b691e113ecb1faf2c68e711ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:57 +0000
Subject: [PATCH 23/54] fix: do not deliver by a subscription that a clean
 start has just removed

---
 vaux-broker/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index 733158d..a504c43 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -723,11 +723,12 @@ impl Broker {
     }
 
     async fn route_publish(publish: &Publish, sender_session_id: &str, state: &BrokerState) {
+        // locked first: no session may be replaced between matching and delivery
+        let session_pool = state.session_pool.read().await;
         let subscribers = {
             let tree = state.topic_tree.read().await;
             tree.matching_subscribers(&publish.topic_name)
         };
-        let session_pool = state.session_pool.read().await;
         for sub in &subscribers {
             if sub.no_local && *sub.session_id == *sender_session_id {
                 continue;
-- 
2.43.0


From 00743cff7a1cc027519133fb95733ed2573f6351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:57 +0000
Subject: [PATCH 24/54] fix: keep accepting connections after one could not be
 accepted

---
 vaux-broker/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index a504c43..5610ac3 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -31,6 +31,8 @@ use vaux_mqtt::{
 const INIT_STREAM_BUFFER_SIZE: usize = 4096;
 /// how long closing a connection may wait for the client
 const CLOSE_TIMEOUT: Duration = Duration::from_millis(500);
+/// pause after a failed accept
+const ACCEPT_RETRY: Duration = Duration::from_millis(50);
 
 #[derive(Debug)]
 pub enum BrokerError {
@@ -227,8 +229,10 @@ impl Broker {
                                         });
                                     }
                                     Err(e) => {
+                                        // one connection that cannot be accepted must not end the others;
+                                        // when resources have run out, waiting may help
                                         tracing::error!(error = %e, "error accepting connection");
-                                        return Err(e.into());
+                                        tokio::time::sleep(ACCEPT_RETRY).await;
                                     }
                                 }
                             }
-- 
2.43.0


From 163bf17a44847770bd0e0659f43a0b1addd1d26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:32 +0000
Subject: [PATCH 25/54] fix: disconnect a slow subscriber although its queue is
 full

---
 vaux-broker/src/lib.rs     |  7 ++++++-
 vaux-broker/src/session.rs | 11 ++++++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index 5610ac3..428275d 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -747,6 +747,11 @@ impl Broker {
                 out.set_qos(qos);
                 if qos != QoSLevel::AtMostOnce {
                     let mut target = target_session.write().await;
+                    if target.pending_ack_count() >= u16::MAX as usize {
+                        // no packet identifier is left
+                        let _ = target.try_send_control(SessionControl::Disconnect(Reason::QuotaExceeded));
+                        continue;
+                    }
                     let packet_id = target.next_packet_id();
                     let _ = out.set_packet_id(Some(packet_id));
                     target.track_qos_publish(packet_id, out.clone());
@@ -759,7 +764,7 @@ impl Broker {
                         let _ = target.try_send_control(SessionControl::Disconnect(Reason::QuotaExceeded));
                     }
                 } else {
-                    let target = target_session.read().await;
+                    let target = target_session.write().await;
                     if let Err(_) = target.try_send_control(SessionControl::Deliver(Box::new(out))) {
                         tracing::warn!(
                             session_id = %sub.session_id,
diff --git a/vaux-broker/src/session.rs b/vaux-broker/src/session.rs
index b48b1f2..2cabb84 100644
--- a/vaux-broker/src/session.rs
+++ b/vaux-broker/src/session.rs
@@ -204,7 +204,8 @@ impl Session {
         keep_alive: Duration,
         channel_size: usize,
     ) -> Self {
-        let (sender, receiver) = mpsc::channel(channel_size);
+        // one place more than for messages, so that a Disconnect always fits
+        let (sender, receiver) = mpsc::channel(channel_size + 1);
         Session {
             id,
             last_active: Instant::now(),
@@ -221,7 +222,8 @@ impl Session {
     }
 
     pub fn reset_control(&mut self, channel_size: usize) {
-        let (sender, receiver) = mpsc::channel(channel_size);
+        // one place more than for messages, so that a Disconnect always fits
+        let (sender, receiver) = mpsc::channel(channel_size + 1);
         self.control = (sender, Some(receiver));
     }
 
@@ -248,6 +250,9 @@ impl Session {
         &self,
         msg: SessionControl,
     ) -> Result<(), tokio::sync::mpsc::error::TrySendError<SessionControl>> {
+        if matches!(msg, SessionControl::Deliver(_)) && self.control.0.capacity() <= 1 {
+            return Err(mpsc::error::TrySendError::Full(msg));
+        }
         self.control.0.try_send(msg)
     }
 
@@ -280,7 +285,7 @@ impl Session {
     pub fn next_packet_id(&mut self) -> u16 {
         let mut id = self.next_packet_id;
         // an identifier that is still unacknowledged must not be used again
-        while self.pending_ack.contains_key(&id) && self.pending_ack.len() < u16::MAX as usize {
+        while self.pending_ack.contains_key(&id) {
             id = id.checked_add(1).unwrap_or(1);
         }
         self.next_packet_id = id.wrapping_add(1);
-- 
2.43.0


From 01445824bf972b9cae3833289d76a855c41486a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:53 +0000
Subject: [PATCH 26/54] fix: a keep-alive of zero means none instead of
 dropping the client at once

---
 vaux-broker/src/lib.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index 428275d..34563df 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -142,11 +142,16 @@ impl SessionLink {
 }
 
 /// Bounds what is done for a client by its keep-alive: a client that does not read must not
-/// hold on to its connection for ever.
+/// hold on to its connection for ever, not even without a keep-alive.
 async fn within<T, E: Into<BrokerError>>(
     limit: Duration,
     work: impl std::future::Future<Output = Result<T, E>>,
 ) -> Result<T, BrokerError> {
+    let limit = if limit.is_zero() {
+        config::MAX_KEEP_ALIVE
+    } else {
+        limit
+    };
     match timeout(limit, work).await {
         Ok(result) => result.map_err(Into::into),
         Err(_) => Err(BrokerError::Io(std::io::ErrorKind::TimedOut.into())),
@@ -279,7 +284,7 @@ impl Broker {
                         }
                     }
                 }
-                _ = Broker::keep_alive_timer(last_packet + keep_alive) => {
+                _ = Broker::keep_alive_timer(last_packet, keep_alive) => {
                     if let Some(session) = &link.session {
                         let session_id = session.read().await.id().to_string();
                         tracing::info!(session_id = %session_id, "keep-alive expired");
@@ -667,8 +672,12 @@ impl Broker {
         Ok(Some(Arc::clone(&session)))
     }
 
-    async fn keep_alive_timer(deadline: Instant) {
-        tokio::time::sleep_until(deadline).await;
+    /// Ends when the keep-alive has passed since the last packet, never without keep-alive.
+    async fn keep_alive_timer(last_packet: Instant, keep_alive: Duration) {
+        if keep_alive.is_zero() {
+            std::future::pending::<()>().await;
+        }
+        tokio::time::sleep_until(last_packet + keep_alive).await;
     }
 
     /// Starts the delay of the session's will. A will without a delay is returned, to be
-- 
2.43.0


From 66823177dbd47391404daf522d8afc784ffdf336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:54 +0000
Subject: [PATCH 27/54] fix: reject CONNECT packets of other protocols and with
 malformed connect flags

---
 vaux-mqtt/src/connect.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/vaux-mqtt/src/connect.rs b/vaux-mqtt/src/connect.rs
index 8b822d7..5ffbe8b 100644
--- a/vaux-mqtt/src/connect.rs
+++ b/vaux-mqtt/src/connect.rs
@@ -12,6 +12,7 @@ pub(crate) const CONNECT_FLAG_WILL_RETAIN: u8 = 0b_0010_0000;
 pub(crate) const CONNECT_FLAG_WILL_QOS: u8 = 0b_0001_1000;
 pub(crate) const CONNECT_FLAG_WILL: u8 = 0b_0000_0100;
 pub(crate) const CONNECT_FLAG_CLEAN_START: u8 = 0b_0000_0010;
+const CONNECT_FLAG_RESERVED: u8 = 0b_0000_0001;
 
 const MQTT_PROTOCOL_NAME: &str = "MQTT";
 const MQTT_PROTOCOL_VERSION: u8 = 0x05;
@@ -196,6 +197,20 @@ impl Connect {
     }
 }
 
+impl Connect {
+    /// MQTT v5 3.1.2.3, 3.1.2.5 to 3.1.2.7: flags that make a CONNECT malformed.
+    fn validate_flags(&self) -> Result<(), MqttCodecError> {
+        let will_options = CONNECT_FLAG_WILL_QOS | CONNECT_FLAG_WILL_RETAIN;
+        if self.connect_flags & CONNECT_FLAG_RESERVED != 0
+            || self.connect_flags & CONNECT_FLAG_WILL_QOS == CONNECT_FLAG_WILL_QOS
+            || (!self.will() && self.connect_flags & will_options != 0)
+        {
+            return Err(MqttCodecError::new("malformed packet: connect flags"));
+        }
+        Ok(())
+    }
+}
+
 impl codec::Decode for Connect {
     fn decode(&mut self, src: &mut bytes::BytesMut) -> Result<usize, MqttCodecError> {
         use bytes::Buf;
@@ -206,8 +221,15 @@ impl codec::Decode for Connect {
         codec::require_remaining(src, 4)?;
         self.protocol_version = src.get_u8();
         bytes_read += 1;
+        // MQTT v5 3.1.2.1, 3.1.2.2: the rest can only be understood for this protocol
+        if self.protocol_name != MQTT_PROTOCOL_NAME
+            || self.protocol_version != MQTT_PROTOCOL_VERSION
+        {
+            return Err(MqttCodecError::new("unsupported protocol name or version"));
+        }
         self.connect_flags = src.get_u8();
         bytes_read += 1;
+        self.validate_flags()?;
         self.keep_alive = src.get_u16();
         bytes_read += 2;
 
-- 
2.43.0


From 26fff99d53e13dc657ad4f21eb48000d8270c64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:25 +0000
Subject: [PATCH 28/54] fix: reject packets that include a property more than
 once

---
 vaux-macro/src/decode.rs   |  2 ++
 vaux-mqtt/src/codec/mod.rs | 16 ++++++++++++++++
 vaux-mqtt/src/connect.rs   |  2 ++
 vaux-mqtt/src/publish.rs   |  5 +++++
 4 files changed, 25 insertions(+)

diff --git a/vaux-macro/src/decode.rs b/vaux-macro/src/decode.rs
index dfce8ae..7ec257d 100644
--- a/vaux-macro/src/decode.rs
+++ b/vaux-macro/src/decode.rs
@@ -82,10 +82,12 @@ pub(crate) fn decode_internal(input: TokenStream) -> TokenStream {
             let property_length = property_length as usize;
             bytes_read += var_bytes_read;
             let mut property_bytes_read = 0_usize;
+            let mut properties_seen = 0_u64;
             while property_bytes_read < property_length {
                 codec::require_remaining(src, 1)?;
                 let property_type = src.get_u8().try_into()?;
                 property_bytes_read += 1;
+                codec::require_property_once(&mut properties_seen, property_type)?;
                 match property_type {
                     #(#property_field_decode)*
                     _ => {
diff --git a/vaux-mqtt/src/codec/mod.rs b/vaux-mqtt/src/codec/mod.rs
index b133ac8..d191316 100644
--- a/vaux-mqtt/src/codec/mod.rs
+++ b/vaux-mqtt/src/codec/mod.rs
@@ -443,6 +443,22 @@ pub fn require_property_length(expected: usize, actual: usize) -> Result<(), Mqt
     Ok(())
 }
 
+/// Fails when a property is included again that may be included only once. The properties
+/// seen so far are kept in `seen`, one bit for each identifier.
+pub fn require_property_once(
+    seen: &mut u64,
+    property_type: crate::property::PropertyType,
+) -> Result<(), MqttCodecError> {
+    let bit = 1_u64 << property_type as u8;
+    if *seen & bit != 0 && property_type != crate::property::PropertyType::UserProperty {
+        return Err(MqttCodecError::new(&format!(
+            "MQTT v5 property type {property_type} is included more than once"
+        )));
+    }
+    *seen |= bit;
+    Ok(())
+}
+
 /// Fails when fewer than `len` bytes are left, reading past the end of the buffer panics.
 pub fn require_remaining(src: &BytesMut, len: usize) -> Result<(), MqttCodecError> {
     if src.remaining() < len {
diff --git a/vaux-mqtt/src/connect.rs b/vaux-mqtt/src/connect.rs
index 5ffbe8b..c9f4cdd 100644
--- a/vaux-mqtt/src/connect.rs
+++ b/vaux-mqtt/src/connect.rs
@@ -238,10 +238,12 @@ impl codec::Decode for Connect {
         let property_length = property_length as usize;
         bytes_read += var_bytes_read;
         let mut property_bytes_read = 0_usize;
+        let mut properties_seen = 0_u64;
         while property_bytes_read < property_length {
             codec::require_remaining(src, 1)?;
             let property_type: PropertyType = src.get_u8().try_into()?;
             property_bytes_read += 1;
+            codec::require_property_once(&mut properties_seen, property_type)?;
             match property_type {
                 PropertyType::SessionExpiryInterval => {
                     let mut value = u32::default();
diff --git a/vaux-mqtt/src/publish.rs b/vaux-mqtt/src/publish.rs
index 7e69a2f..e1caf99 100644
--- a/vaux-mqtt/src/publish.rs
+++ b/vaux-mqtt/src/publish.rs
@@ -299,10 +299,15 @@ impl codec::Decode for Publish {
         let property_length = property_length as usize;
         bytes_read += var_bytes_read;
         let mut property_bytes_read = 0_usize;
+        let mut properties_seen = 0_u64;
         while property_bytes_read < property_length {
             codec::require_remaining(src, 1)?;
             let property_type: PropertyType = src.get_u8().try_into()?;
             property_bytes_read += 1;
+            // a message has one subscription identifier for each matching subscription
+            if property_type != PropertyType::SubscriptionIdentifier {
+                codec::require_property_once(&mut properties_seen, property_type)?;
+            }
             match property_type {
                 PropertyType::MessageExpiry => {
                     let mut value = u32::default();
-- 
2.43.0


From b6c94bc3e1989f5bbc2c04f626d160ce69a4e202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:33 +0000
Subject: [PATCH 29/54] fix: reject reserved subscription options and CONNACK
 flags

---
 vaux-mqtt/src/connack.rs   | 12 ++++++++++++
 vaux-mqtt/src/subscribe.rs | 14 ++++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/vaux-mqtt/src/connack.rs b/vaux-mqtt/src/connack.rs
index b17695f..49ab578 100644
--- a/vaux-mqtt/src/connack.rs
+++ b/vaux-mqtt/src/connack.rs
@@ -1,6 +1,7 @@
 use crate::codec::{self, Reason};
 use crate::property::{PropertyType, UserProperty};
 use crate::{MqttCodecError, QoSLevel};
+use bytes::Buf;
 use vaux_macro::packet;
 
 const CONNACK_SESSION_PRESENT_MASK: u8 = 0x01;
@@ -8,6 +9,7 @@ const CONNACK_SESSION_PRESENT_MASK: u8 = 0x01;
 #[packet(packet_type = "codec::PacketType::ConnAck")]
 #[derive(Debug, Default, Clone, PartialEq, Eq)]
 pub struct ConnAck {
+    #[codec(decode_with = "decode_ack_flags")]
     ack_flags: u8,
     pub reason: Reason,
     #[codec(property_type = "PropertyType::SessionExpiryInterval")]
@@ -46,6 +48,16 @@ pub struct ConnAck {
     pub auth_data: Vec<u8>,
 }
 
+/// MQTT v5 3.2.2.1: all bits but session present are reserved.
+fn decode_ack_flags(src: &mut bytes::BytesMut) -> Result<(u8, usize), MqttCodecError> {
+    codec::require_remaining(src, 1)?;
+    let ack_flags = src.get_u8();
+    if ack_flags & !CONNACK_SESSION_PRESENT_MASK != 0 {
+        return Err(MqttCodecError::new("malformed packet: connack flags"));
+    }
+    Ok((ack_flags, 1))
+}
+
 impl ConnAck {
     /// Returns true if the session is present flag is set in the CONNACK packet.
     ///
diff --git a/vaux-mqtt/src/subscribe.rs b/vaux-mqtt/src/subscribe.rs
index 4ab9c96..a5aa14e 100644
--- a/vaux-mqtt/src/subscribe.rs
+++ b/vaux-mqtt/src/subscribe.rs
@@ -79,9 +79,23 @@ impl SubAck {
 #[derive(Debug, Default, Clone, PartialEq, Eq, Encode, Decode, CodecSize)]
 pub struct SubscriptionFilter {
     pub filter: String,
+    #[codec(decode_with = "decode_options")]
     options: u8,
 }
 
+/// MQTT v5 3.8.3.1: reserved bits must be zero, QoS 3 and retain handling 3 do not exist.
+fn decode_options(src: &mut bytes::BytesMut) -> Result<(u8, usize), MqttCodecError> {
+    let mut options = 0_u8;
+    let bytes_read = codec::Decode::decode(&mut options, src)?;
+    if options & 0b1100_0000 != 0
+        || options & 0b0000_0011 == 0b0000_0011
+        || options & 0b0011_0000 == 0b0011_0000
+    {
+        return Err(MqttCodecError::new("malformed packet: subscription options"));
+    }
+    Ok((options, bytes_read))
+}
+
 impl SubscriptionFilter {
     /// Create a new Subscription with the given filter and QoSLevel.
     /// The remaining fields are set to their default values.
-- 
2.43.0


From 643b377963e77b846d84d3bfa1b3101fa43870e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:33 +0000
Subject: [PATCH 30/54] fix: reject strings with a null character

---
 vaux-mqtt/src/codec/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vaux-mqtt/src/codec/mod.rs b/vaux-mqtt/src/codec/mod.rs
index d191316..9309de7 100644
--- a/vaux-mqtt/src/codec/mod.rs
+++ b/vaux-mqtt/src/codec/mod.rs
@@ -617,6 +617,10 @@ impl Decode for String {
             )
         })?;
         *self = String::from_utf8(dest_vec).map_err(|e| MqttCodecError::new(&format!("{e:?}")))?;
+        // MQTT v5 1.5.4
+        if self.contains('\0') {
+            return Err(MqttCodecError::new("malformed packet: null character in a string"));
+        }
         Ok(len as usize + 2)
     }
 }
@@ -712,6 +716,10 @@ pub fn encode_string(src: &str, dest: &mut BytesMut) -> Result<(), MqttCodecErro
     if len > u16::MAX as usize {
         return Err(MqttCodecError::new("string exceeds max length"));
     }
+    // MQTT v5 1.5.4
+    if src.contains('\0') {
+        return Err(MqttCodecError::new("null character in a string"));
+    }
     dest.put_u16(len as u16);
     dest.put(src.as_bytes());
     Ok(())
-- 
2.43.0


From 1b233456344477821469f603cd2f896e871b4af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:18 +0000
Subject: [PATCH 31/54] fix: never use packet identifier 0 for a message of the
 client

---
 vaux-client/src/session.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index 98ebad4..c97c776 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -295,6 +295,13 @@ impl ClientSession {
                     }
                     // verify client set packet ID is not already in use
                     if let Some(packet_id) = p.packet_id() {
+                        // MQTT v5 2.2.1
+                        if packet_id == 0 {
+                            return Err(MqttError::new(
+                                "packet ID must not be 0",
+                                ErrorKind::Protocol(Reason::MalformedPacket),
+                            ));
+                        }
                         if self.state.pending_qos_send.contains_key(&packet_id) {
                             return Err(MqttError::new(
                                 "packet ID already in use",
@@ -304,12 +311,13 @@ impl ClientSession {
                     } else if self.state.auto_packet_id {
                         // if auto packet ID is enabled, generate a packet ID
                         self.state.last_packet_id = self.state.last_packet_id.wrapping_add(1);
-                        // verify the packet ID is not already in use
+                        // verify the packet ID is not 0 and not already in use
                         // TODO improve in-use packet ID managment
-                        while self
-                            .state
-                            .pending_qos_send
-                            .contains_key(&self.state.last_packet_id)
+                        while self.state.last_packet_id == 0
+                            || self
+                                .state
+                                .pending_qos_send
+                                .contains_key(&self.state.last_packet_id)
                         {
                             self.state.last_packet_id = self.state.last_packet_id.wrapping_add(1);
                         }
-- 
2.43.0


From 8824a7deea952ec3744429a8370cbeeeceb8eb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:49 +0000
Subject: [PATCH 32/54] fix: end a QoS 2 exchange when PUBREC reports an error

---
 vaux-client/src/session.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index c97c776..e9ec9a1 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -412,7 +412,10 @@ impl ClientSession {
                 if let Some(p) = self.state.pending_qos_send.remove(&packet_id) {
                     match p.next {
                         QoSPacket::PubRec => {
-                            if self.state.auto_ack {
+                            if pubrec.reason().is_some_and(|r| r as u8 >= 0x80) {
+                                // MQTT v5 4.3.3: an error ends the exchange
+                                self.state.qos_send_remaining += 1;
+                            } else if self.state.auto_ack {
                                 // insert PUBREL into pending qos
                                 let pubrec_state = p.next().ok_or(MqttError::new(
                                     "invalid session state",
-- 
2.43.0


From 018e66eb8b630e000a8fb66253af98c5371859c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:32 +0000
Subject: [PATCH 33/54] fix: keep to the receive maximum of the broker and
 queue messages beyond it

---
 vaux-client/src/client.rs  |   4 +
 vaux-client/src/session.rs | 158 ++++++++++++++++++++-----------------
 2 files changed, 91 insertions(+), 71 deletions(-)

diff --git a/vaux-client/src/client.rs b/vaux-client/src/client.rs
index efaf3c2..4d5f1e2 100644
--- a/vaux-client/src/client.rs
+++ b/vaux-client/src/client.rs
@@ -352,6 +352,10 @@ impl MqttClient {
                 *_session_expiry.write().await = session_expiry;
             }
             let keep_alive_enabled = session.keep_alive_enabled();
+            if let Err(e) = session.send_queued().await {
+                *connected.write().await = false;
+                return Err(ClientError::new(e, session.end_session().await));
+            }
             // Holds a packet that has been read off the wire (and already acked,
             // for auto-acked QoS 1/2) but could not be handed to the consumer
             // because its channel was full. While this is set, reads from the
diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index e9ec9a1..a005853 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -1,6 +1,10 @@
 use crate::{ErrorKind, MqttClient, MqttError};
 use std::mem;
-use std::{collections::HashMap, sync::Arc, time::Duration};
+use std::{
+    collections::{HashMap, VecDeque},
+    sync::Arc,
+    time::Duration,
+};
 use tokio::sync::{Mutex, RwLock};
 use vaux_mqtt::WillMessage;
 use vaux_mqtt::publish::Publish;
@@ -73,7 +77,10 @@ pub struct SessionState {
     pub(crate) keep_alive: Arc<RwLock<Duration>>,
     pub(crate) session_expiry: Arc<RwLock<Duration>>,
 
-    pub(crate) qos_send_remaining: usize,
+    // receive maximum of the broker
+    send_maximum: usize,
+    // messages waiting until the receive maximum of the broker permits to send them
+    queued_qos_send: VecDeque<Publish>,
     pending_qos_send: HashMap<u16, QoSPacketState>,
     pub(crate) qos_recv_remaining: usize,
     pending_qos_recv: HashMap<u16, QoSPacketState>,
@@ -102,7 +109,8 @@ impl SessionState {
             )))),
             keep_alive: Arc::new(RwLock::new(DEFAULT_CLIENT_KEEP_ALIVE)),
             session_expiry: Arc::new(RwLock::new(DEFAULT_SESSION_EXPIRY)),
-            qos_send_remaining: u16::MAX as usize,
+            send_maximum: u16::MAX as usize,
+            queued_qos_send: VecDeque::new(),
             pending_qos_send: HashMap::new(),
             qos_recv_remaining: u16::MAX as usize,
             pending_qos_recv: HashMap::new(),
@@ -282,76 +290,33 @@ impl ClientSession {
 
     pub(crate) async fn write_next(&mut self, packet: Packet) -> Result<(), MqttError> {
         match packet {
-            Packet::Publish(mut p) => {
-                if p.qos() == QoSLevel::AtLeastOnce || p.qos() == QoSLevel::ExactlyOnce {
-                    // check the pending qos for available space
-                    if self.state.pending_qos_send.len() >= u16::MAX as usize
-                        || self.state.qos_send_remaining == 0
-                    {
+            Packet::Publish(p) if p.qos() != QoSLevel::AtMostOnce => {
+                // check the queue for available space
+                if self.state.queued_qos_send.len() >= u16::MAX as usize {
+                    return Err(MqttError::new(
+                        "pending QoS packets full",
+                        ErrorKind::Protocol(Reason::ProtocolErr),
+                    ));
+                }
+                match p.packet_id() {
+                    // MQTT v5 2.2.1
+                    Some(0) => {
                         return Err(MqttError::new(
-                            "pending QoS packets full",
-                            ErrorKind::Protocol(Reason::ProtocolErr),
+                            "packet ID must not be 0",
+                            ErrorKind::Protocol(Reason::MalformedPacket),
                         ));
                     }
-                    // verify client set packet ID is not already in use
-                    if let Some(packet_id) = p.packet_id() {
-                        // MQTT v5 2.2.1
-                        if packet_id == 0 {
-                            return Err(MqttError::new(
-                                "packet ID must not be 0",
-                                ErrorKind::Protocol(Reason::MalformedPacket),
-                            ));
-                        }
-                        if self.state.pending_qos_send.contains_key(&packet_id) {
-                            return Err(MqttError::new(
-                                "packet ID already in use",
-                                ErrorKind::Protocol(Reason::MalformedPacket),
-                            ));
-                        }
-                    } else if self.state.auto_packet_id {
-                        // if auto packet ID is enabled, generate a packet ID
-                        self.state.last_packet_id = self.state.last_packet_id.wrapping_add(1);
-                        // verify the packet ID is not 0 and not already in use
-                        // TODO improve in-use packet ID managment
-                        while self.state.last_packet_id == 0
-                            || self
-                                .state
-                                .pending_qos_send
-                                .contains_key(&self.state.last_packet_id)
-                        {
-                            self.state.last_packet_id = self.state.last_packet_id.wrapping_add(1);
-                        }
-                        p.set_packet_id(Some(self.state.last_packet_id))
-                            .map_err(|e| {
-                                MqttError::new(
-                                    &format!("{e}"),
-                                    ErrorKind::Protocol(Reason::MalformedPacket),
-                                )
-                            })?;
-                    } else {
-                        // if no packet ID is set and auto packet ID is disabled, return an error
+                    // if no packet ID is set and auto packet ID is disabled, return an error
+                    None if !self.state.auto_packet_id => {
                         return Err(MqttError::new(
                             "no packet ID for QoS > 0",
                             ErrorKind::Protocol(Reason::MalformedPacket),
                         ));
                     }
-                    match p.qos() {
-                        QoSLevel::AtLeastOnce => {
-                            self.state.pending_qos_send.insert(
-                                p.packet_id().unwrap(),
-                                QoSPacketState::new_qos1(Packet::Publish(p.clone())),
-                            );
-                        }
-                        QoSLevel::ExactlyOnce => {
-                            self.state.pending_qos_send.insert(
-                                p.packet_id().unwrap(),
-                                QoSPacketState::new_qos2(Packet::Publish(p.clone())),
-                            );
-                        }
-                        _ => {}
-                    }
+                    _ => {}
                 }
-                self.send_packet(Packet::Publish(p)).await
+                self.state.queued_qos_send.push_back(p);
+                self.send_queued().await
             }
             Packet::Disconnect(d) => {
                 self.send_packet(Packet::Disconnect(d)).await?;
@@ -364,6 +329,59 @@ impl ClientSession {
         }
     }
 
+    /// Sends the queued messages as far as the receive maximum of the broker permits.
+    pub(crate) async fn send_queued(&mut self) -> Result<(), MqttError> {
+        while self.state.pending_qos_send.len() < self.state.send_maximum {
+            let Some(mut p) = self.state.queued_qos_send.pop_front() else {
+                break;
+            };
+            let packet_id = match p.packet_id() {
+                Some(packet_id) => {
+                    // verify client set packet ID is not already in use
+                    if self.state.pending_qos_send.contains_key(&packet_id) {
+                        return Err(MqttError::new(
+                            "packet ID already in use",
+                            ErrorKind::Protocol(Reason::MalformedPacket),
+                        ));
+                    }
+                    packet_id
+                }
+                None => {
+                    let packet_id = self.next_packet_id();
+                    p.set_packet_id(Some(packet_id)).map_err(|e| {
+                        MqttError::new(
+                            &format!("{e}"),
+                            ErrorKind::Protocol(Reason::MalformedPacket),
+                        )
+                    })?;
+                    packet_id
+                }
+            };
+            let packet = Packet::Publish(p.clone());
+            let packet_state = match p.qos() {
+                QoSLevel::ExactlyOnce => QoSPacketState::new_qos2(packet),
+                _ => QoSPacketState::new_qos1(packet),
+            };
+            self.state.pending_qos_send.insert(packet_id, packet_state);
+            self.send_packet(Packet::Publish(p)).await?;
+        }
+        Ok(())
+    }
+
+    /// Returns a packet ID that is not 0 and not in use.
+    /// TODO improve in-use packet ID managment
+    fn next_packet_id(&mut self) -> u16 {
+        let state = &mut self.state;
+        loop {
+            state.last_packet_id = state.last_packet_id.wrapping_add(1);
+            if state.last_packet_id != 0
+                && !state.pending_qos_send.contains_key(&state.last_packet_id)
+            {
+                return state.last_packet_id;
+            }
+        }
+    }
+
     pub(crate) async fn handle_packet(
         &mut self,
         packet: Packet,
@@ -389,7 +407,7 @@ impl ClientSession {
                     match p.next {
                         QoSPacket::PubAck => {
                             self.state.pending_qos_send.remove(&puback.packet_id);
-                            self.state.qos_send_remaining += 1;
+                            self.send_queued().await?;
                         }
                         _ => {
                             // protocol error, unexpected packet - disconnect
@@ -414,7 +432,7 @@ impl ClientSession {
                         QoSPacket::PubRec => {
                             if pubrec.reason().is_some_and(|r| r as u8 >= 0x80) {
                                 // MQTT v5 4.3.3: an error ends the exchange
-                                self.state.qos_send_remaining += 1;
+                                self.send_queued().await?;
                             } else if self.state.auto_ack {
                                 // insert PUBREL into pending qos
                                 let pubrec_state = p.next().ok_or(MqttError::new(
@@ -533,8 +551,8 @@ impl ClientSession {
                 if let Some(p) = self.state.pending_qos_send.remove(&packet_id) {
                     match p.next {
                         QoSPacket::PubComp => {
-                            //  do nothing - removed from pending qos
-                            self.state.qos_send_remaining += 1;
+                            // removed from pending qos
+                            self.send_queued().await?;
                         }
                         _ => {
                             // protocol error, unexpected packet
@@ -606,9 +624,7 @@ impl ClientSession {
             *session_expiry = Duration::from_secs(u64::from(server_session_expiry));
         }
         // set the server assigned receive maximum
-        if let Some(receive_max) = connack.receive_maximum {
-            self.state.qos_send_remaining = receive_max as usize;
-        }
+        self.state.send_maximum = connack.receive_maximum.unwrap_or(u16::MAX) as usize;
         Ok(connack)
     }
 
-- 
2.43.0


From 0668051b93deb3a10764909ab86d40aa8b29c917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:26 +0000
Subject: [PATCH 34/54] fix: hand over an incoming QoS 2 message once and
 answer a repeated PUBREL

---
 vaux-client/src/builder.rs |   2 +-
 vaux-client/src/session.rs | 170 ++++++++++++++++---------------------
 2 files changed, 72 insertions(+), 100 deletions(-)

diff --git a/vaux-client/src/builder.rs b/vaux-client/src/builder.rs
index 1ec76e6..133016d 100644
--- a/vaux-client/src/builder.rs
+++ b/vaux-client/src/builder.rs
@@ -85,7 +85,7 @@ impl ClientBuilder {
     }
 
     pub fn with_receive_max(mut self, receive_max: u16) -> Self {
-        self.state.qos_recv_remaining = receive_max as usize;
+        self.state.recv_maximum = receive_max as usize;
         self
     }
 
diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index a005853..3c2f7ce 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -82,7 +82,8 @@ pub struct SessionState {
     // messages waiting until the receive maximum of the broker permits to send them
     queued_qos_send: VecDeque<Publish>,
     pending_qos_send: HashMap<u16, QoSPacketState>,
-    pub(crate) qos_recv_remaining: usize,
+    // receive maximum of the client
+    pub(crate) recv_maximum: usize,
     pending_qos_recv: HashMap<u16, QoSPacketState>,
 
     pub(crate) max_packet_size: usize,
@@ -112,7 +113,7 @@ impl SessionState {
             send_maximum: u16::MAX as usize,
             queued_qos_send: VecDeque::new(),
             pending_qos_send: HashMap::new(),
-            qos_recv_remaining: u16::MAX as usize,
+            recv_maximum: u16::MAX as usize,
             pending_qos_recv: HashMap::new(),
 
             max_packet_size: DEFAULT_MAX_PACKET_SIZE,
@@ -400,7 +401,7 @@ impl ClientSession {
                 ));
             }
             Packet::Publish(publish) => {
-                self.handle_recv_publish(publish.clone()).await?;
+                packet_to_consumer = self.handle_recv_publish(publish.clone()).await?;
             }
             Packet::PubAck(puback) => {
                 if let Some(p) = self.state.pending_qos_send.get(&puback.packet_id) {
@@ -514,7 +515,6 @@ impl ClientSession {
                                     Ok(_) => {
                                         // remove from pending qos
                                         self.state.pending_qos_recv.remove(&packet_id);
-                                        self.state.qos_recv_remaining += 1;
                                     }
                                     Err(_) => {
                                         // re-insert into pending qos without change
@@ -537,6 +537,11 @@ impl ClientSession {
                             ));
                         }
                     }
+                } else if self.state.auto_ack {
+                    // MQTT v5 4.3.3: the PUBCOMP sent before has been lost
+                    let pubcomp = PubResp::new_pubcomp_with_packet_id(packet_id);
+                    self.send_packet(Packet::PubComp(pubcomp)).await?;
+                    packet_to_consumer = false;
                 } else {
                     // protocol error, unexpected packet
                     // TODO disconnect
@@ -628,104 +633,71 @@ impl ClientSession {
         Ok(connack)
     }
 
-    async fn handle_recv_publish(&mut self, publish: Publish) -> crate::Result<()> {
-        match publish.qos() {
-            vaux_mqtt::QoSLevel::AtMostOnce => Ok(()),
-
-            vaux_mqtt::QoSLevel::AtLeastOnce => {
-                if self.state.qos_recv_remaining == 0 {
-                    // protocol error, no more QoS packets allowed
-                    return Err(MqttError::new(
-                        "no more QoS packets allowed",
-                        ErrorKind::Protocol(Reason::ProtocolErr),
-                    ));
-                }
-                // insert into pending receive QoS
-                self.state.pending_qos_recv.insert(
-                    publish.packet_id().unwrap(),
-                    QoSPacketState::new_qos1(Packet::Publish(publish.clone())),
-                );
-                if self.state.auto_ack {
-                    let puback = if let Some(packet_id) = publish.packet_id() {
-                        PubResp::new_puback_with_packet_id(packet_id)
-                    } else {
-                        // TODO send disconnect with reason cod
-                        let _ = self.packet_stream.shutdown().await;
-                        return Err(MqttError::new(
-                            "protocol error, packet ID required with QoS > 0",
-                            ErrorKind::Protocol(Reason::MalformedPacket),
-                        ));
-                    };
-                    self.state.qos_recv_remaining -= 1;
-                    match self.send_packet(Packet::PubAck(puback)).await {
-                        Ok(_) => {
-                            self.state
-                                .pending_qos_recv
-                                .remove(&publish.packet_id().unwrap());
-                            self.state.qos_recv_remaining += 1;
-                            Ok(())
-                        }
-                        Err(_) => {
-                            // TODO handle the pub ack next time through
-                            // push a message to the last error channel
-                            Err(MqttError::new(
-                                "unable to send pub ack",
-                                ErrorKind::Transport,
-                            ))
-                        }
-                    }
-                } else {
-                    // not auto ack, remaining - 1 until client app sends response
-                    self.state.qos_recv_remaining -= 1;
-                    Ok(())
-                }
+    /// Acknowledges a received message, returns true if it is new to the consumer.
+    async fn handle_recv_publish(&mut self, publish: Publish) -> crate::Result<bool> {
+        if publish.qos() == QoSLevel::AtMostOnce {
+            return Ok(true);
+        }
+        let Some(packet_id) = publish.packet_id() else {
+            // TODO send disconnect with reason cod
+            let _ = self.packet_stream.shutdown().await;
+            return Err(MqttError::new(
+                "protocol error, packet ID required with QoS > 0",
+                ErrorKind::Protocol(Reason::MalformedPacket),
+            ));
+        };
+        let known = self.state.pending_qos_recv.contains_key(&packet_id);
+        if !known && self.state.pending_qos_recv.len() >= self.state.recv_maximum {
+            // protocol error, no more QoS packets allowed
+            return Err(MqttError::new(
+                "no more QoS packets allowed",
+                ErrorKind::Protocol(Reason::ProtocolErr),
+            ));
+        }
+        if !self.state.auto_ack {
+            // pending until client app sends response
+            if !known {
+                let packet = Packet::Publish(publish.clone());
+                let packet_state = match publish.qos() {
+                    QoSLevel::ExactlyOnce => QoSPacketState::new_qos2(packet),
+                    _ => QoSPacketState::new_qos1(packet),
+                };
+                self.state.pending_qos_recv.insert(packet_id, packet_state);
             }
-            vaux_mqtt::QoSLevel::ExactlyOnce => {
-                self.state.pending_qos_recv.insert(
-                    publish.packet_id().unwrap(),
-                    QoSPacketState::new_qos2(Packet::Publish(publish.clone())),
-                );
-                // decrement the remaining QoS packets until ack  sent
-                self.state.qos_recv_remaining -= 1;
-                if self.state.auto_ack {
-                    let pubrec = if let Some(packet_id) = publish.packet_id() {
-                        PubResp::new_pubrec_with_packet_id(packet_id)
-                    } else {
-                        // protocol error, packet ID required with QoS > 0
-                        let _ = self.packet_stream.shutdown().await;
-                        return Err(MqttError::new(
-                            "protocol error, packet ID required with QoS > 0",
-                            ErrorKind::Protocol(Reason::MalformedPacket),
-                        ));
-                    };
-                    match self.send_packet(Packet::PubRec(pubrec)).await {
-                        Ok(_) => {
-                            // move to next state and re-insert into pending qos
-                            let next = self
-                                .state
-                                .pending_qos_recv
-                                .remove(&publish.packet_id().unwrap())
-                                .map(|p| p.next().unwrap())
-                                .ok_or(MqttError::new(
-                                    "invalid session state",
-                                    ErrorKind::Session,
-                                ))?;
-                            self.state
-                                .pending_qos_recv
-                                .insert(publish.packet_id().unwrap(), next);
-                        }
-                        Err(_) => {
-                            // TODO handle the pub rec next time through
-                            // push a message to the last error channel
-                            return Err(MqttError::new(
-                                "unable to send pub rec",
-                                ErrorKind::Transport,
-                            ));
-                        }
-                    }
+            return Ok(true);
+        }
+        if publish.qos() == QoSLevel::AtLeastOnce {
+            let puback = PubResp::new_puback_with_packet_id(packet_id);
+            return match self.send_packet(Packet::PubAck(puback)).await {
+                Ok(_) => Ok(true),
+                // the broker will send the message again
+                Err(_) => Err(MqttError::new(
+                    "unable to send pub ack",
+                    ErrorKind::Transport,
+                )),
+            };
+        }
+        let pubrec = PubResp::new_pubrec_with_packet_id(packet_id);
+        match self.send_packet(Packet::PubRec(pubrec)).await {
+            Ok(_) => {
+                // MQTT v5 4.3.3: a retransmission must not be delivered again
+                if !known {
+                    let packet_state = QoSPacketState::new_qos2(Packet::Publish(publish)).next();
+                    self.state.pending_qos_recv.insert(
+                        packet_id,
+                        packet_state.ok_or(MqttError::new(
+                            "invalid session state",
+                            ErrorKind::Session,
+                        ))?,
+                    );
                 }
-                Ok(())
+                Ok(!known)
             }
+            // the broker will send the message again
+            Err(_) => Err(MqttError::new(
+                "unable to send pub rec",
+                ErrorKind::Transport,
+            )),
         }
     }
 
-- 
2.43.0


From 990c071eb5c644026cdea68d14559991d669889c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:14 +0000
Subject: [PATCH 35/54] fix: send unacknowledged messages again when a session
 is resumed

---
 vaux-client/src/client.rs  | 11 +++++---
 vaux-client/src/session.rs | 55 +++++++++++++++++++++++++++++++++++---
 2 files changed, 59 insertions(+), 7 deletions(-)

diff --git a/vaux-client/src/client.rs b/vaux-client/src/client.rs
index 4d5f1e2..b77ddc1 100644
--- a/vaux-client/src/client.rs
+++ b/vaux-client/src/client.rs
@@ -333,16 +333,19 @@ impl MqttClient {
         let _keep_alive = self.keep_alive.clone();
         let _session_expiry = self.session_expiry.clone();
         Ok(tokio::spawn(async move {
-            match session
+            let session_present = match session
                 .connect(max_connect_wait, credentials, clean_start, will_message)
                 .await
             {
-                Ok(_) => *connected.write().await = true,
+                Ok(connack) => {
+                    *connected.write().await = true;
+                    connack.session_present()
+                }
                 Err(e) => {
                     *connected.write().await = false;
                     return Err(ClientError::new(e, session.end_session().await));
                 }
-            }
+            };
             let keep_alive = session.keep_alive().await;
             {
                 *_keep_alive.write().await = keep_alive;
@@ -352,7 +355,7 @@ impl MqttClient {
                 *_session_expiry.write().await = session_expiry;
             }
             let keep_alive_enabled = session.keep_alive_enabled();
-            if let Err(e) = session.send_queued().await {
+            if let Err(e) = session.resume(session_present).await {
                 *connected.write().await = false;
                 return Err(ClientError::new(e, session.end_session().await));
             }
diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index 3c2f7ce..92b1714 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -34,6 +34,8 @@ struct QoSPacketState {
     #[allow(dead_code)]
     packet: Option<Packet>,
     next: QoSPacket,
+    // orders the retransmissions
+    sequence: u64,
 }
 
 impl QoSPacketState {
@@ -42,6 +44,7 @@ impl QoSPacketState {
             packet_id: 0,
             packet: Some(packet),
             next: QoSPacket::PubAck,
+            sequence: 0,
         }
     }
 
@@ -50,6 +53,7 @@ impl QoSPacketState {
             packet_id: 0,
             packet: Some(packet),
             next: QoSPacket::PubRec,
+            sequence: 0,
         }
     }
 
@@ -60,11 +64,13 @@ impl QoSPacketState {
                 packet_id: self.packet_id,
                 packet: None,
                 next: QoSPacket::PubRel,
+                sequence: self.sequence,
             }),
             QoSPacket::PubRel => Some(Self {
                 packet_id: self.packet_id,
                 packet: None,
                 next: QoSPacket::PubComp,
+                sequence: self.sequence,
             }),
             QoSPacket::PubComp => None,
         }
@@ -82,6 +88,7 @@ pub struct SessionState {
     // messages waiting until the receive maximum of the broker permits to send them
     queued_qos_send: VecDeque<Publish>,
     pending_qos_send: HashMap<u16, QoSPacketState>,
+    last_sequence: u64,
     // receive maximum of the client
     pub(crate) recv_maximum: usize,
     pending_qos_recv: HashMap<u16, QoSPacketState>,
@@ -113,6 +120,7 @@ impl SessionState {
             send_maximum: u16::MAX as usize,
             queued_qos_send: VecDeque::new(),
             pending_qos_send: HashMap::new(),
+            last_sequence: 0,
             recv_maximum: u16::MAX as usize,
             pending_qos_recv: HashMap::new(),
 
@@ -330,8 +338,42 @@ impl ClientSession {
         }
     }
 
+    /// Continues or forgets the exchanges of the earlier connections (MQTT v5 4.4), sends
+    /// again what has not been acknowledged in the original order.
+    pub(crate) async fn resume(&mut self, session_present: bool) -> Result<(), MqttError> {
+        let mut pending: Vec<_> = self.state.pending_qos_send.drain().collect();
+        if session_present {
+            pending.sort_by_key(|(_, packet_state)| packet_state.sequence);
+            let mut queued = VecDeque::new();
+            let mut released = Vec::new();
+            for (packet_id, packet_state) in pending {
+                if let Some(Packet::Publish(mut publish)) = packet_state.packet {
+                    // the quality of service is not 0
+                    let _ = publish.set_dup(true);
+                    queued.push_back(publish);
+                } else {
+                    released.push(packet_id);
+                    self.state.pending_qos_send.insert(packet_id, packet_state);
+                }
+            }
+            queued.append(&mut self.state.queued_qos_send);
+            self.state.queued_qos_send = queued;
+            for packet_id in released {
+                let pubrel = PubResp::new_pubrel_with_packet_id(packet_id);
+                self.send_packet(Packet::PubRel(pubrel)).await?;
+                if let Some(packet_state) = self.state.pending_qos_send.get_mut(&packet_id) {
+                    packet_state.next = QoSPacket::PubComp;
+                }
+            }
+        } else {
+            self.state.pending_qos_recv.clear();
+            self.state.queued_qos_send.retain(|publish| !publish.dup());
+        }
+        self.send_queued().await
+    }
+
     /// Sends the queued messages as far as the receive maximum of the broker permits.
-    pub(crate) async fn send_queued(&mut self) -> Result<(), MqttError> {
+    async fn send_queued(&mut self) -> Result<(), MqttError> {
         while self.state.pending_qos_send.len() < self.state.send_maximum {
             let Some(mut p) = self.state.queued_qos_send.pop_front() else {
                 break;
@@ -359,16 +401,22 @@ impl ClientSession {
                 }
             };
             let packet = Packet::Publish(p.clone());
-            let packet_state = match p.qos() {
+            let mut packet_state = match p.qos() {
                 QoSLevel::ExactlyOnce => QoSPacketState::new_qos2(packet),
                 _ => QoSPacketState::new_qos1(packet),
             };
+            packet_state.sequence = self.next_sequence();
             self.state.pending_qos_send.insert(packet_id, packet_state);
             self.send_packet(Packet::Publish(p)).await?;
         }
         Ok(())
     }
 
+    fn next_sequence(&mut self) -> u64 {
+        self.state.last_sequence += 1;
+        self.state.last_sequence
+    }
+
     /// Returns a packet ID that is not 0 and not in use.
     /// TODO improve in-use packet ID managment
     fn next_packet_id(&mut self) -> u16 {
@@ -436,10 +484,11 @@ impl ClientSession {
                                 self.send_queued().await?;
                             } else if self.state.auto_ack {
                                 // insert PUBREL into pending qos
-                                let pubrec_state = p.next().ok_or(MqttError::new(
+                                let mut pubrec_state = p.next().ok_or(MqttError::new(
                                     "invalid session state",
                                     ErrorKind::Session,
                                 ))?;
+                                pubrec_state.sequence = self.next_sequence();
                                 self.state.pending_qos_send.insert(packet_id, pubrec_state);
                                 // create the PUBREL packet
                                 let pubrel = PubResp::new_pubrel_with_packet_id(packet_id);
-- 
2.43.0


From 36b6b06fb176acb0cdb578a0393332d11c480de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:35 +0000
Subject: [PATCH 36/54] fix: keep track of exchanges the application
 acknowledges itself

---
 vaux-client/src/session.rs | 102 ++++++++++++++++++++-----------------
 1 file changed, 54 insertions(+), 48 deletions(-)

diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index 92b1714..ff53296 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -334,7 +334,10 @@ impl ClientSession {
                 *self.connected.write().await = false;
                 Ok(())
             }
-            _ => self.send_packet(packet).await,
+            _ => {
+                self.acknowledged(&packet);
+                self.send_packet(packet).await
+            }
         }
     }
 
@@ -352,18 +355,17 @@ impl ClientSession {
                     let _ = publish.set_dup(true);
                     queued.push_back(publish);
                 } else {
-                    released.push(packet_id);
+                    // without auto ack the client app decides when PUBREL is first sent
+                    if self.state.auto_ack || packet_state.next == QoSPacket::PubComp {
+                        released.push(packet_id);
+                    }
                     self.state.pending_qos_send.insert(packet_id, packet_state);
                 }
             }
             queued.append(&mut self.state.queued_qos_send);
             self.state.queued_qos_send = queued;
             for packet_id in released {
-                let pubrel = PubResp::new_pubrel_with_packet_id(packet_id);
-                self.send_packet(Packet::PubRel(pubrel)).await?;
-                if let Some(packet_state) = self.state.pending_qos_send.get_mut(&packet_id) {
-                    packet_state.next = QoSPacket::PubComp;
-                }
+                self.send_pubrel(packet_id).await?;
             }
         } else {
             self.state.pending_qos_recv.clear();
@@ -412,6 +414,44 @@ impl ClientSession {
         Ok(())
     }
 
+    async fn send_pubrel(&mut self, packet_id: u16) -> Result<(), MqttError> {
+        let pubrel = PubResp::new_pubrel_with_packet_id(packet_id);
+        self.send_packet(Packet::PubRel(pubrel)).await?;
+        if let Some(packet_state) = self.state.pending_qos_send.get_mut(&packet_id) {
+            packet_state.next = QoSPacket::PubComp;
+        }
+        Ok(())
+    }
+
+    /// Records an acknowledgement by the client app.
+    fn acknowledged(&mut self, packet: &Packet) {
+        let (send, recv) = (
+            &mut self.state.pending_qos_send,
+            &mut self.state.pending_qos_recv,
+        );
+        match packet {
+            Packet::PubAck(ack) | Packet::PubComp(ack) => {
+                recv.remove(&ack.packet_id);
+            }
+            Packet::PubRec(ack) if ack.reason().is_some_and(|r| r as u8 >= 0x80) => {
+                recv.remove(&ack.packet_id);
+            }
+            Packet::PubRec(ack) => {
+                if let Some(packet_state) = recv.get_mut(&ack.packet_id) {
+                    packet_state.next = QoSPacket::PubRel;
+                }
+            }
+            Packet::PubRel(ack) => {
+                if let Some(packet_state) = send.get_mut(&ack.packet_id)
+                    && packet_state.next == QoSPacket::PubRel
+                {
+                    packet_state.next = QoSPacket::PubComp;
+                }
+            }
+            _ => {}
+        }
+    }
+
     fn next_sequence(&mut self) -> u64 {
         self.state.last_sequence += 1;
         self.state.last_sequence
@@ -482,7 +522,7 @@ impl ClientSession {
                             if pubrec.reason().is_some_and(|r| r as u8 >= 0x80) {
                                 // MQTT v5 4.3.3: an error ends the exchange
                                 self.send_queued().await?;
-                            } else if self.state.auto_ack {
+                            } else {
                                 // insert PUBREL into pending qos
                                 let mut pubrec_state = p.next().ok_or(MqttError::new(
                                     "invalid session state",
@@ -490,46 +530,9 @@ impl ClientSession {
                                 ))?;
                                 pubrec_state.sequence = self.next_sequence();
                                 self.state.pending_qos_send.insert(packet_id, pubrec_state);
-                                // create the PUBREL packet
-                                let pubrel = PubResp::new_pubrel_with_packet_id(packet_id);
-                                match self.send_packet(Packet::PubRel(pubrel)).await {
-                                    Ok(_) => {
-                                        // remove from pending qos
-                                        if let Some(pubrec_packet) =
-                                            self.state.pending_qos_send.remove(&packet_id)
-                                        {
-                                            match pubrec_packet.next {
-                                                QoSPacket::PubRel => {
-                                                    self.state.pending_qos_send.insert(
-                                                        packet_id,
-                                                        pubrec_packet.next().ok_or(
-                                                            MqttError::new(
-                                                                "invalid session state",
-                                                                ErrorKind::Session,
-                                                            ),
-                                                        )?,
-                                                    );
-                                                }
-                                                _ => {
-                                                    // protocol error, unexpected packet
-                                                    // re-insert into pending qos without change
-                                                    self.state
-                                                        .pending_qos_send
-                                                        .insert(packet_id, pubrec_packet);
-                                                    return Err(MqttError::new(
-                                                        "unexpected control packet",
-                                                        ErrorKind::Protocol(Reason::ProtocolErr),
-                                                    ));
-                                                }
-                                            }
-                                        }
-                                    }
-                                    Err(_) => {
-                                        return Err(MqttError::new(
-                                            "unable to send pub rel",
-                                            ErrorKind::Transport,
-                                        ));
-                                    }
+                                // the client app sends PUBREL without auto ack
+                                if self.state.auto_ack {
+                                    self.send_pubrel(packet_id).await?;
                                 }
                             }
                         }
@@ -574,6 +577,9 @@ impl ClientSession {
                                         ));
                                     }
                                 }
+                            } else {
+                                // pending until client app sends PUBCOMP
+                                self.state.pending_qos_recv.insert(packet_id, p);
                             }
                         }
                         _ => {
-- 
2.43.0


From d1b29e80dded6a0f6797da4b0fb8cd2cfd23d32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:36 +0000
Subject: [PATCH 37/54] fix: ping although packets arrive, and not at all with
 a keep-alive of zero

---
 vaux-client/src/client.rs  |  9 +++------
 vaux-client/src/session.rs | 27 +++++++++++++++++----------
 2 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/vaux-client/src/client.rs b/vaux-client/src/client.rs
index b77ddc1..a66d504 100644
--- a/vaux-client/src/client.rs
+++ b/vaux-client/src/client.rs
@@ -354,7 +354,8 @@ impl MqttClient {
             {
                 *_session_expiry.write().await = session_expiry;
             }
-            let keep_alive_enabled = session.keep_alive_enabled();
+            // MQTT v5 3.1.2.10: a keep alive of 0 turns the keep alive mechanism off
+            let keep_alive_enabled = session.keep_alive_enabled() && !keep_alive.is_zero();
             if let Err(e) = session.resume(session_present).await {
                 *connected.write().await = false;
                 return Err(ClientError::new(e, session.end_session().await));
@@ -370,7 +371,7 @@ impl MqttClient {
             let mut pending_forward: Option<Packet> = None;
             loop {
                 select! {
-                    _ = MqttClient::keep_alive_timer(keep_alive), if keep_alive_enabled => {
+                    _ = tokio::time::sleep_until(session.last_active() + keep_alive), if keep_alive_enabled => {
                         match session.handle_keep_alive().await {
                             Ok(_) => {
                                 // do nothing
@@ -485,10 +486,6 @@ impl MqttClient {
         Ok(())
     }
 
-    async fn keep_alive_timer(keep_alive: Duration) {
-        tokio::time::sleep(keep_alive).await;
-    }
-
     /// Retries delivery of a previously-undeliverable packet to its filtered
     /// consumer if one is registered for its packet type, otherwise to the
     /// default consumer. `tokio::select!` evaluates a branch's future-producing
diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index ff53296..bc97df6 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -17,6 +17,7 @@ use vaux_mqtt::{
 const DEFAULT_MAX_PACKET_SIZE: usize = 64 * 1024;
 const DEFAULT_CLIENT_ID_PREFIX: &str = "vaux-client";
 const DEFAULT_CLIENT_KEEP_ALIVE: Duration = Duration::from_secs(60);
+const MAX_CLIENT_KEEP_ALIVE: Duration = Duration::from_secs(u16::MAX as u64);
 const DEFAULT_SESSION_EXPIRY: Duration = Duration::from_secs(600);
 
 #[allow(clippy::enum_variant_names)]
@@ -137,7 +138,8 @@ impl SessionState {
 pub(crate) struct ClientSession {
     connected: Arc<RwLock<bool>>,
     packet_stream: vaux_async::stream::PacketStream,
-    last_active: std::time::Instant,
+    // when a packet has last been sent
+    last_active: tokio::time::Instant,
     state: SessionState,
     usable: bool,
 }
@@ -163,7 +165,7 @@ impl ClientSession {
                 None,
                 Some(state.max_packet_size),
             ),
-            last_active: std::time::Instant::now(),
+            last_active: tokio::time::Instant::now(),
             state,
             usable: true,
         })
@@ -182,7 +184,8 @@ impl ClientSession {
     }
 
     pub(crate) async fn keep_alive(&self) -> Duration {
-        *self.state.keep_alive.read().await
+        // no longer than CONNECT can announce
+        (*self.state.keep_alive.read().await).min(MAX_CLIENT_KEEP_ALIVE)
     }
 
     pub(crate) async fn session_expiry(&self) -> Duration {
@@ -197,6 +200,10 @@ impl ClientSession {
         self.state.keep_alive_enabled
     }
 
+    pub(crate) fn last_active(&self) -> tokio::time::Instant {
+        self.last_active
+    }
+
     pub(crate) async fn connect(
         &mut self,
         max_connect_wait: Duration,
@@ -211,7 +218,8 @@ impl ClientSession {
             ));
         }
         let mut connect = Connect::default();
-        connect.keep_alive = self.state.keep_alive.read().await.as_secs() as u16;
+        // in whole seconds and never less than the time between packets
+        connect.keep_alive = self.keep_alive().await.as_secs_f64().ceil() as u16;
         connect.set_clean_start(clean_start);
         {
             let set_id = self.state.client_id.lock().await;
@@ -758,17 +766,16 @@ impl ClientSession {
 
     pub(crate) async fn handle_keep_alive(&mut self) -> Result<(), MqttError> {
         let ping = Packet::PingRequest(Default::default());
-        self.send_packet(ping).await?;
-        // packet sent, update last active time
-        self.last_active = std::time::Instant::now();
-        // }
-        Ok(())
+        self.send_packet(ping).await
     }
 
     async fn send_packet(&mut self, mut packet: Packet) -> Result<(), MqttError> {
         self.packet_stream
             .write(&mut packet)
             .await
-            .map_err(|_| MqttError::new("unable to write packet to stream", ErrorKind::Transport))
+            .map_err(|_| MqttError::new("unable to write packet to stream", ErrorKind::Transport))?;
+        // packet sent, update last active time
+        self.last_active = tokio::time::Instant::now();
+        Ok(())
     }
 }
-- 
2.43.0


From d7faf83cfec4dfa1c9868694f28dd995ce679a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:49 +0000
Subject: [PATCH 38/54] fix: acknowledge a received message only when its
 consumer has room for it

---
 vaux-client/src/client.rs  | 110 ++++++++++++++-----------------------
 vaux-client/src/session.rs |   9 +++
 2 files changed, 50 insertions(+), 69 deletions(-)

diff --git a/vaux-client/src/client.rs b/vaux-client/src/client.rs
index a66d504..ff77c60 100644
--- a/vaux-client/src/client.rs
+++ b/vaux-client/src/client.rs
@@ -7,8 +7,8 @@ use tokio::sync::RwLock;
 use tokio::{
     sync::mpsc::{
         self,
-        error::{SendError, TrySendError},
-        Receiver, Sender,
+        error::SendError,
+        Permit, Receiver, Sender,
     },
     task::JoinHandle,
 };
@@ -360,14 +360,12 @@ impl MqttClient {
                 *connected.write().await = false;
                 return Err(ClientError::new(e, session.end_session().await));
             }
-            // Holds a packet that has been read off the wire (and already acked,
-            // for auto-acked QoS 1/2) but could not be handed to the consumer
-            // because its channel was full. While this is set, reads from the
-            // socket are paused so we never decode further packets the consumer
-            // has no room for; keep-alive and outbound app commands keep flowing.
-            // This avoids the consumer's channel back-pressure deadlocking the
-            // whole client (no further reads => no further PubAcks => the broker
-            // eventually drops the connection for missed keep-alives).
+            // Holds a packet that has been read off the wire while its consumer has no
+            // room for it. The packet is not handled (and not acked) before there is
+            // room, the broker sends it again should the connection end first. While
+            // this is set, reads from the socket are paused so we never decode further
+            // packets the consumer has no room for; keep-alive and outbound app commands
+            // keep flowing.
             let mut pending_forward: Option<Packet> = None;
             loop {
                 select! {
@@ -382,55 +380,33 @@ impl MqttClient {
                             }
                         }
                     }
-                    forward_result = MqttClient::forward_pending(&filter_channel, &packet_out, pending_forward.clone()), if pending_forward.is_some() => {
-                        match forward_result {
-                            Some(Ok(_)) => {
-                                pending_forward = None;
-                            }
-                            Some(Err(e)) => {
-                                *connected.write().await = false;
-                                return Err(ClientError::new(
-                                    MqttError::new(&format!("unable to send packet: {e}"), ErrorKind::Channel),
-                                    session.end_session().await));
-                            }
-                            None => {
-                                // guard was true when checked but pending_forward was
-                                // already cleared by the time the expression ran; no-op
+                    permit = MqttClient::reserve(&filter_channel, &packet_out, pending_forward.as_ref()), if pending_forward.is_some() => {
+                        let handled = match (permit, pending_forward.take()) {
+                            (Some(Ok(permit)), Some(packet)) => {
+                                session.handle_packet(packet).await.map(|packet| {
+                                    if let Some(packet) = packet {
+                                        permit.send(packet);
+                                    }
+                                })
                             }
+                            (Some(Err(e)), _) => Err(MqttError::new(&format!("unable to send packet: {e}"), ErrorKind::Channel)),
+                            // guard was true when checked but pending_forward was
+                            // already cleared by the time the expression ran; no-op
+                            _ => Ok(()),
+                        };
+                        if let Err(e) = handled {
+                            *connected.write().await = false;
+                            return Err(ClientError::new(e, session.end_session().await));
                         }
                     }
                     packet_result = session.read_next(), if pending_forward.is_none() => {
                         match packet_result {
                             Ok(Some(packet)) => {
-                                match session.handle_packet(packet).await {
-                                    Ok(Some(packet)) => {
-                                        // check filter channels
-                                        let send_result = if let Some(filter_out) = filter_channel.get(&PacketType::from(&packet)) {
-                                            filter_out.try_send(packet)
-                                        } else {
-                                            packet_out.try_send(packet)
-                                        };
-                                        match send_result {
-                                            Ok(_) => {}
-                                            Err(TrySendError::Full(packet)) => {
-                                                // consumer is behind; pause reads until it catches up
-                                                pending_forward = Some(packet);
-                                            }
-                                            Err(TrySendError::Closed(_)) => {
-                                                *connected.write().await = false;
-                                                return Err(ClientError::new(
-                                                    MqttError::new("unable to send packet: channel closed", ErrorKind::Channel),
-                                                    session.end_session().await));
-                                            }
-                                        }
-                                    }
-                                    Ok(None) => {
-                                        // do nothing
-                                    }
-                                    Err(e) => {
-                                        *connected.write().await = false;
-                                        return Err(ClientError::new(e, session.end_session().await));
-                                    }
+                                if session.to_consumer(&packet) {
+                                    pending_forward = Some(packet);
+                                } else if let Err(e) = session.handle_packet(packet).await {
+                                    *connected.write().await = false;
+                                    return Err(ClientError::new(e, session.end_session().await));
                                 }
                             }
                             Ok(None) => {
@@ -486,22 +462,18 @@ impl MqttClient {
         Ok(())
     }
 
-    /// Retries delivery of a previously-undeliverable packet to its filtered
-    /// consumer if one is registered for its packet type, otherwise to the
-    /// default consumer. `tokio::select!` evaluates a branch's future-producing
-    /// expression even when its `if` guard is false, so this takes `Option`
-    /// rather than asserting the packet is present.
-    async fn forward_pending(
-        filter_channel: &FilteredChannel,
-        packet_out: &Sender<Packet>,
-        packet: Option<Packet>,
-    ) -> Option<Result<(), SendError<Packet>>> {
-        let packet = packet?;
-        Some(if let Some(filter_out) = filter_channel.get(&PacketType::from(&packet)) {
-            filter_out.send(packet).await
-        } else {
-            packet_out.send(packet).await
-        })
+    /// Waits for room for a packet in its filtered consumer if one is registered for
+    /// its packet type, otherwise in the default consumer. `tokio::select!` evaluates
+    /// a branch's future-producing expression even when its `if` guard is false, so
+    /// this takes `Option` rather than asserting the packet is present.
+    async fn reserve<'a>(
+        filter_channel: &'a FilteredChannel,
+        packet_out: &'a Sender<Packet>,
+        packet: Option<&Packet>,
+    ) -> Option<Result<Permit<'a, Packet>, SendError<()>>> {
+        let packet_type = PacketType::from(packet?);
+        let consumer = filter_channel.get(&packet_type).unwrap_or(packet_out);
+        Some(consumer.reserve().await)
     }
 
     fn qos_control(packet: &Packet) -> bool {
diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index bc97df6..3cce09f 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -479,6 +479,15 @@ impl ClientSession {
         }
     }
 
+    /// Whether the consumer must have room before the packet is handled.
+    pub(crate) fn to_consumer(&self, packet: &Packet) -> bool {
+        match packet {
+            Packet::PingResponse(_) => self.state.pingresp,
+            Packet::Disconnect(_) => false,
+            _ => true,
+        }
+    }
+
     pub(crate) async fn handle_packet(
         &mut self,
         packet: Packet,
-- 
2.43.0


From 4cb879c70f9af421300e5eb33d35001798967362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:36 +0000
Subject: [PATCH 39/54] fix: a silent broker makes starting fail within the
 configured wait

---
 vaux-client/src/client.rs     |  2 +-
 vaux-client/src/connection.rs | 30 +++++++++++-------------------
 vaux-client/src/session.rs    |  8 ++++++--
 3 files changed, 18 insertions(+), 22 deletions(-)

diff --git a/vaux-client/src/client.rs b/vaux-client/src/client.rs
index ff77c60..0f85570 100644
--- a/vaux-client/src/client.rs
+++ b/vaux-client/src/client.rs
@@ -311,7 +311,7 @@ impl MqttClient {
         let connected = self.connected.clone();
         let filter_channel = self.filter_channel.clone();
         if let Some(connection) = self.connection.as_mut() {
-            match connection.connect().await {
+            match connection.connect_with_timeout(max_connect_wait).await {
                 Ok(c) => c,
                 Err(e) => {
                     return Err(MqttError::new(
diff --git a/vaux-client/src/connection.rs b/vaux-client/src/connection.rs
index c88341c..3d1826e 100644
--- a/vaux-client/src/connection.rs
+++ b/vaux-client/src/connection.rs
@@ -12,7 +12,6 @@ use crate::{ErrorKind, MqttError};
 const DEFAULT_HOST: &str = "localhost";
 pub const DEFAULT_PORT: u16 = 1883;
 pub const DEFAULT_SECURE_PORT: u16 = 8883;
-const DEFAULT_CONNECTION_TIMEOUT: u64 = 30_000;
 
 pub struct MqttConnection {
     host: String,
@@ -89,12 +88,6 @@ impl MqttConnection {
         self.stream.take()
     }
 
-    pub(crate) async fn connect(&mut self) -> crate::Result<()> {
-        self.connect_with_timeout(Duration::from_millis(DEFAULT_CONNECTION_TIMEOUT))
-            .await?;
-        Ok(())
-    }
-
     pub(crate) async fn connect_with_timeout(&mut self, timeout: Duration) -> crate::Result<()> {
         // if not set via with_tls or with_port, set the port to the default
         if self.port.is_none() {
@@ -115,22 +108,21 @@ impl MqttConnection {
         }
         let socket_addr = socket_addr.unwrap().next().unwrap();
 
-        match tokio::time::timeout(timeout, TcpStream::connect(&socket_addr)).await {
-            Ok(result) => match result {
-                Ok(stream) => {
-                    if self.tls {
-                        self.stream = Some(self.connect_tls(stream).await?);
-                        Ok(())
-                    } else {
-                        self.stream = Some(AsyncMqttStream(MqttStream::TcpStream(stream)));
-                        Ok(())
-                    }
-                }
+        let connected = tokio::time::timeout(timeout, async {
+            match TcpStream::connect(&socket_addr).await {
+                Ok(stream) if self.tls => self.connect_tls(stream).await,
+                Ok(stream) => Ok(AsyncMqttStream(MqttStream::TcpStream(stream))),
                 Err(e) => Err(MqttError::new(
                     &format!("unable to connect: {e}"),
                     ErrorKind::Connection,
                 )),
-            },
+            }
+        });
+        match connected.await {
+            Ok(stream) => {
+                self.stream = Some(stream?);
+                Ok(())
+            }
             Err(_e) => Err(MqttError {
                 message: "timeout".to_string(),
                 kind: ErrorKind::Timeout,
diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index 3cce09f..49cf5e3 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -244,9 +244,13 @@ impl ClientSession {
 
         match self.packet_stream.write(&mut connect_packet).await {
             Ok(_) => {
-                let start = std::time::Instant::now();
+                let start = tokio::time::Instant::now();
                 while start.elapsed() < max_connect_wait {
-                    match self.read_next().await {
+                    let wait = max_connect_wait.saturating_sub(start.elapsed());
+                    let Ok(next) = tokio::time::timeout(wait, self.read_next()).await else {
+                        break;
+                    };
+                    match next {
                         Ok(Some(packet)) => match packet {
                             Packet::ConnAck(connack) => {
                                 return self.handle_connack(connack).await;
-- 
2.43.0


From 6f6172a947987498b657667e0cc874cb1312802f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:37 +0000
Subject: [PATCH 40/54] fix: a failed start can be repeated and ends within its
 limit

---
 vaux-client/src/client.rs | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/vaux-client/src/client.rs b/vaux-client/src/client.rs
index 0f85570..13fd49c 100644
--- a/vaux-client/src/client.rs
+++ b/vaux-client/src/client.rs
@@ -243,8 +243,17 @@ impl MqttClient {
         max_wait: Duration,
         clean_start: bool,
     ) -> crate::Result<JoinHandle<Result<SessionState, ClientError>>> {
-        let handle = self.start(clean_start).await;
-        match tokio::time::timeout(max_wait, {
+        let started = tokio::time::Instant::now();
+        let handle = match tokio::time::timeout(max_wait, self.start(clean_start)).await {
+            Ok(handle) => handle?,
+            Err(start_err) => {
+                return Err(MqttError::new(
+                    &format!("unable to connect to broker: {start_err}"),
+                    ErrorKind::Transport,
+                ));
+            }
+        };
+        match tokio::time::timeout(max_wait.saturating_sub(started.elapsed()), {
             async {
                 while !self.connected().await {
                     tokio::time::sleep(std::time::Duration::from_millis(100)).await;
@@ -255,13 +264,13 @@ impl MqttClient {
         {
             Ok(_) => 
             {
-                handle
+                Ok(handle)
             }
             Err(start_err) => {
                 // if the client is connected then stop the client
-                if self.connected().await
-                    && let Err(stop_err) = self.stop().await
-                {
+                if !self.connected().await {
+                    handle.abort();
+                } else if let Err(stop_err) = self.stop().await {
                     return Err(MqttError::new(
                         &format!(
                             "error starting: {start_err} unable to stop client: {stop_err} "
@@ -302,10 +311,6 @@ impl MqttClient {
         }
         let max_connect_wait = self.max_connect_wait;
         let will_message = self.will_message.clone();
-        let mut packet_in_receiver = self.packet_in.1.take().ok_or(MqttError::new(
-            "packet_in channel closed",
-            ErrorKind::Transport,
-        ))?;
         let packet_out = self.packet_out.0.clone();
         let credentials = self.connection.as_ref().unwrap().credentials().clone();
         let connected = self.connected.clone();
@@ -321,6 +326,11 @@ impl MqttClient {
                 }
             };
         }
+        // taken once connected, a failed start can be repeated
+        let mut packet_in_receiver = self.packet_in.1.take().ok_or(MqttError::new(
+            "packet_in channel closed",
+            ErrorKind::Transport,
+        ))?;
         let mut session = match ClientSession::new_from_client(self).await {
             Ok(s) => s,
             Err(e) => {
-- 
2.43.0


From 0a6abb9d067dd6a7d17eadee7aaeca1a452565f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:13 +0000
Subject: [PATCH 41/54] fix: hand errors to the registered error handler

---
 vaux-client/src/client.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/vaux-client/src/client.rs b/vaux-client/src/client.rs
index 13fd49c..84b96f6 100644
--- a/vaux-client/src/client.rs
+++ b/vaux-client/src/client.rs
@@ -342,7 +342,8 @@ impl MqttClient {
         };
         let _keep_alive = self.keep_alive.clone();
         let _session_expiry = self.session_expiry.clone();
-        Ok(tokio::spawn(async move {
+        let err_chan = self.err_chan.clone();
+        let client_task = async move {
             let session_present = match session
                 .connect(max_connect_wait, credentials, clean_start, will_message)
                 .await
@@ -458,6 +459,14 @@ impl MqttClient {
                     return Ok(session.end_session().await);
                 }
             }
+        };
+        Ok(tokio::spawn(async move {
+            let result: Result<SessionState, ClientError> = client_task.await;
+            if let (Err(e), Some(err_chan)) = (&result, err_chan) {
+                // do not wait for the error handler
+                let _ = err_chan.try_send(e.mqtt_error.clone());
+            }
+            result
         }))
     }
 
-- 
2.43.0


From 39ff9516f90bfa901e843d28c5e21180c2d7082a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:13 +0000
Subject: [PATCH 42/54] fix: build a client from a session whose server gave a
 short keep-alive

---
 vaux-client/src/builder.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vaux-client/src/builder.rs b/vaux-client/src/builder.rs
index 133016d..67de3d1 100644
--- a/vaux-client/src/builder.rs
+++ b/vaux-client/src/builder.rs
@@ -31,6 +31,8 @@ pub struct ClientBuilder {
     filtered_consumer: Option<HashMap<PacketType, Sender<vaux_mqtt::Packet>>>,
     error_out: Option<Sender<MqttError>>,
     will_message: Option<WillMessage>,
+    // set with with_keep_alive, as opposed to taken over from the server
+    keep_alive_set: bool,
 }
 
 impl Default for ClientBuilder {
@@ -43,6 +45,7 @@ impl Default for ClientBuilder {
             filtered_consumer: None,
             error_out: None,
             will_message: None,
+            keep_alive_set: false,
         }
     }
 }
@@ -114,6 +117,7 @@ impl ClientBuilder {
     /// broker may assume that the client is no longer connected close the connection.
     pub fn with_keep_alive(mut self, keep_alive: Duration) -> Self {
         self.state.keep_alive = Arc::new(RwLock::new(keep_alive));
+        self.keep_alive_set = true;
         self
     }
 
@@ -186,7 +190,7 @@ impl ClientBuilder {
 
     pub async fn build(self) -> Result<crate::MqttClient, BuilderError> {
         let keep_alive = self.state.keep_alive.read().await;
-        if *keep_alive < MIN_KEEP_ALIVE {
+        if self.keep_alive_set && *keep_alive < MIN_KEEP_ALIVE {
             return Err(BuilderError::MinKeepAlive);
         }
         drop(keep_alive);
-- 
2.43.0


From 9fff8b6e07127dfa88eabaa27e422796b290a902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:26 +0000
Subject: [PATCH 43/54] fix: adopt the client identifier assigned by the server

---
 vaux-client/src/session.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index 49cf5e3..b99d184 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -664,8 +664,8 @@ impl ClientSession {
     }
 
     async fn handle_connack(&mut self, connack: ConnAck) -> crate::Result<ConnAck> {
-        let set_id = self.state.client_id.lock().await;
-        let client_id_set = set_id.is_some();
+        let mut set_id = self.state.client_id.lock().await;
+        let client_id_set = set_id.as_ref().is_some_and(|id| !id.is_empty());
         if connack.reason != Reason::Success {
             // TODO return the connack reason as MQTT error with reason code
             let mut connected = self.connected.write().await;
@@ -682,7 +682,6 @@ impl ClientSession {
         if !client_id_set {
             match connack.assigned_client_id {
                 Some(ref client_id) => {
-                    let mut set_id = self.state.client_id.lock().await;
                     *set_id = Some(client_id.clone());
                 }
                 _ => {
-- 
2.43.0


From 199f8c274d335f19661d4d24bcd8a95556209271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:26 +0000
Subject: [PATCH 44/54] fix: announce the configured receive maximum and
 maximum packet size

---
 vaux-client/src/session.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index b99d184..7776ba7 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -227,8 +227,13 @@ impl ClientSession {
                 connect.client_id = set_id.as_ref().unwrap().clone();
             }
         }
-        connect
-            .set_session_expiry_interval(self.state.session_expiry.read().await.as_secs() as u32);
+        let session_expiry = self.state.session_expiry.read().await.as_secs();
+        connect.set_session_expiry_interval(session_expiry.min(u32::MAX as u64) as u32);
+        // MQTT v5 3.1.2.11.3: the broker sends no more than it has been told
+        if self.state.recv_maximum < u16::MAX as usize {
+            connect.receive_maximum = Some(self.state.recv_maximum as u16);
+        }
+        connect.max_packet_size = Some(self.state.max_packet_size.min(u32::MAX as usize) as u32);
         if let Some((username, password)) = credentials {
             connect.set_username(Some(username));
             connect.set_password(Some(password.into_bytes()));
-- 
2.43.0


From 588880d9877080483dd7d91c57d4f28aed1d7004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:25 +0000
Subject: [PATCH 45/54] fix: user properties are encoded in the order in which
 they were added

A HashMap gave them an arbitrary order, so that neither a packet decoded and
encoded again nor a message or will forwarded by the broker kept it
(MQTT v5 3.1.2.11.8, 3.3.2.3.7).
---
 vaux-mqtt/src/property.rs | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/vaux-mqtt/src/property.rs b/vaux-mqtt/src/property.rs
index 06ef371..eb6406a 100644
--- a/vaux-mqtt/src/property.rs
+++ b/vaux-mqtt/src/property.rs
@@ -147,12 +147,16 @@ impl TryFrom<u8> for PropertyType {
 }
 
 #[derive(Debug, Default, Clone, PartialEq, Eq)]
-pub struct UserProperty(HashMap<String, Vec<String>>);
+pub struct UserProperty {
+    values: HashMap<String, Vec<String>>,
+    // the key of each value, in the order in which the values were added
+    order: Vec<String>,
+}
 
 impl codec::PropertyCodecSize for UserProperty {
     fn property_size(&self) -> u32 {
         let mut size = 0;
-        for (key, values) in &self.0 {
+        for (key, values) in &self.values {
             for value in values {
                 size += 1; // Property identifier
                 size += 2 + key.len() as u32; // Key length + key
@@ -165,12 +169,16 @@ impl codec::PropertyCodecSize for UserProperty {
 
 impl codec::Encode for UserProperty {
     fn encode(&self, dest: &mut BytesMut) -> Result<(), MqttCodecError> {
-        for (key, values) in &self.0 {
-            for value in values {
+        // MQTT v5 3.3.2.3.7: the order must be maintained
+        let mut next: HashMap<&str, usize> = HashMap::new();
+        for key in &self.order {
+            let index = next.entry(key).or_default();
+            if let Some(value) = self.values.get(key).and_then(|values| values.get(*index)) {
                 dest.put_u8(PropertyType::UserProperty as u8);
                 encode_string(key, dest)?;
                 encode_string(value, dest)?;
             }
+            *index += 1;
         }
         Ok(())
     }
@@ -182,41 +190,44 @@ impl codec::Decode for UserProperty {
         let (key_value, key_len) = codec::decode_string(src)?;
         let (value, len) = codec::decode_string(src)?;
         let bytes_read = key_len + len;
-        self.0.entry(key_value).or_default().push(value);
+        self.add(key_value, value);
         Ok(bytes_read)
     }
 }
 
 impl UserProperty {
     pub fn new() -> Self {
-        UserProperty(HashMap::new())
+        Self::default()
     }
 
     pub fn clear(&mut self) {
-        self.0.clear();
+        self.values.clear();
+        self.order.clear();
     }
 
     pub fn clear_codec(&mut self, key: &str) {
-        self.0.remove(key);
+        self.values.remove(key);
+        self.order.retain(|k| k != key);
     }
 
     pub fn add(&mut self, key: String, value: String) {
-        self.0.entry(key).or_default().push(value);
+        self.order.push(key.clone());
+        self.values.entry(key).or_default().push(value);
     }
 
     pub fn get(&self, key: &str) -> Option<&Vec<String>> {
-        self.0.get(key)
+        self.values.get(key)
     }
 
     pub fn iter(&self) -> impl Iterator<Item = (&String, &Vec<String>)> {
-        self.0.iter()
+        self.values.iter()
     }
 
     pub fn is_empty(&self) -> bool {
-        self.0.is_empty()
+        self.values.is_empty()
     }
 
     pub fn len(&self) -> usize {
-        self.0.len()
+        self.values.len()
     }
 }
-- 
2.43.0


From 08071684ea6ad95430257fecc96dd8215e3cbd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:50 +0000
Subject: [PATCH 46/54] fix: a configured receive maximum or maximum packet
 size of 0 is not announced

---
 vaux-client/src/builder.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vaux-client/src/builder.rs b/vaux-client/src/builder.rs
index 67de3d1..a61e876 100644
--- a/vaux-client/src/builder.rs
+++ b/vaux-client/src/builder.rs
@@ -88,7 +88,8 @@ impl ClientBuilder {
     }
 
     pub fn with_receive_max(mut self, receive_max: u16) -> Self {
-        self.state.recv_maximum = receive_max as usize;
+        // MQTT v5 3.1.2.11.3: 0 can not be announced
+        self.state.recv_maximum = receive_max.max(1) as usize;
         self
     }
 
@@ -107,7 +108,8 @@ impl ClientBuilder {
     }
 
     pub fn with_max_packet_size(mut self, max_packet_size: usize) -> Self {
-        self.state.max_packet_size = max_packet_size;
+        // MQTT v5 3.1.2.11.4: 0 can not be announced
+        self.state.max_packet_size = max_packet_size.max(1);
         self
     }
 
-- 
2.43.0


From 1ad37ab892c82c8b51c2e65a8909ab64bf9456cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:33 +0000
Subject: [PATCH 47/54] fix: 0 is refused as subscription identifier

---
 vaux-mqtt/src/subscribe.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vaux-mqtt/src/subscribe.rs b/vaux-mqtt/src/subscribe.rs
index a5aa14e..053a875 100644
--- a/vaux-mqtt/src/subscribe.rs
+++ b/vaux-mqtt/src/subscribe.rs
@@ -1,4 +1,4 @@
-use crate::codec::{ErrorKind, MAX_VARIABLE_BYTE_INT, MIN_VARIABLE_BYTE_INT};
+use crate::codec::{ErrorKind, MAX_VARIABLE_BYTE_INT};
 use crate::{codec, MqttCodecError, PropertyType, Reason};
 use crate::{property::UserProperty, MqttError, MqttVersion, QoSLevel};
 use vaux_macro::{packet, CodecSize, Decode, Encode};
@@ -196,7 +196,8 @@ impl Subscribe {
     }
 
     pub fn set_subscription_id(&mut self, id: u32) -> Result<(), MqttError> {
-        if !(MIN_VARIABLE_BYTE_INT..=MAX_VARIABLE_BYTE_INT).contains(&id) {
+        // MQTT v5 3.8.2.1.2: 0 is not a subscription identifier
+        if !(1..=MAX_VARIABLE_BYTE_INT).contains(&id) {
             return Err(MqttError::new_from_spec(
                 MqttVersion::V5,
                 "3.8.3",
-- 
2.43.0


From a31a336daf275f4e2118e7b3bea7647310640ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:33 +0000
Subject: [PATCH 48/54] fix: PUBREL and PUBCOMP can carry the reason packet
 identifier not found

---
 vaux-mqtt/src/pubresp.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vaux-mqtt/src/pubresp.rs b/vaux-mqtt/src/pubresp.rs
index e165b81..baba10e 100644
--- a/vaux-mqtt/src/pubresp.rs
+++ b/vaux-mqtt/src/pubresp.rs
@@ -115,7 +115,10 @@ impl PubResp {
                     | Reason::PayloadFormatErr
             ),
             PacketType::PubComp | PacketType::PubRel => {
-                matches!(reason, Reason::Success | Reason::PacketIdInUse)
+                matches!(
+                    reason,
+                    Reason::Success | Reason::PacketIdInUse | Reason::PacketIdNotFound
+                )
             }
             _ => false,
         }
-- 
2.43.0


From 0f55835c5d6835834ab090a501218abe86023884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:50 +0000
Subject: [PATCH 49/54] fix: CONNACK announces limits of 0, and limits beyond
 its fields do not wrap

---
 vaux-broker/src/lib.rs     | 9 +++++----
 vaux-broker/src/session.rs | 4 ++--
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index 34563df..39200bc 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -552,10 +552,10 @@ impl Broker {
         };
         // handle keep alive request
         let keep_alive = if connect.keep_alive < default_keep_alive_secs {
-            ack.set_server_keep_alive(default_keep_alive_secs);
+            ack.server_keep_alive = Some(default_keep_alive_secs);
             Duration::from_secs(default_keep_alive_secs.into()).mul_f32(BROKER_KEEP_ALIVE_FACTOR)
         } else if connect.keep_alive > max_keep_alive_secs {
-            ack.set_server_keep_alive(max_keep_alive_secs);
+            ack.server_keep_alive = Some(max_keep_alive_secs);
             Duration::from_secs(max_keep_alive_secs.into()).mul_f32(BROKER_KEEP_ALIVE_FACTOR)
         } else {
             Duration::from_secs(connect.keep_alive.into()).mul_f32(BROKER_KEEP_ALIVE_FACTOR)
@@ -565,10 +565,11 @@ impl Broker {
             if requested_expiry > 0 {
                 let max_expiry: u32;
                 {
-                    max_expiry = state.session_pool.read().await.session_expiry().as_secs() as u32;
+                    let limit = state.session_pool.read().await.session_expiry();
+                    max_expiry = u32::try_from(limit.as_secs()).unwrap_or(u32::MAX);
                 }
                 if requested_expiry > max_expiry {
-                    ack.set_session_expiry(max_expiry);
+                    ack.session_expiry_interval = Some(max_expiry);
                     Some(Duration::from_secs(max_expiry as u64))
                 } else {
                     Some(Duration::from_secs(requested_expiry as u64))
diff --git a/vaux-broker/src/session.rs b/vaux-broker/src/session.rs
index 2cabb84..6915fb8 100644
--- a/vaux-broker/src/session.rs
+++ b/vaux-broker/src/session.rs
@@ -39,11 +39,11 @@ impl SessionPool {
     }
 
     pub fn default_keep_alive_secs(&self) -> u16 {
-        self.default_keep_alive.as_secs() as u16
+        u16::try_from(self.default_keep_alive.as_secs()).unwrap_or(u16::MAX)
     }
 
     pub fn max_keep_alive_secs(&self) -> u16 {
-        self.max_keep_alive.as_secs() as u16
+        u16::try_from(self.max_keep_alive.as_secs()).unwrap_or(u16::MAX)
     }
 
     pub fn session_expiry(&self) -> Duration {
-- 
2.43.0


From 42119f2481f2a8632e45b913d207cb180bee2278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:34 +0000
Subject: [PATCH 50/54] fix: stopping the broker ends its listener, and it can
 be run again

---
 vaux-broker/src/lib.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index 39200bc..9664cec 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -104,6 +104,8 @@ impl BrokerState {
 pub struct Broker {
     state: BrokerState,
     command_channel: (Sender<BrokerCommand>, Option<Receiver<BrokerCommand>>),
+    /// the task that accepts connections
+    listener: Option<JoinHandle<Result<(), BrokerError>>>,
 }
 
 impl Default for Broker {
@@ -112,6 +114,7 @@ impl Default for Broker {
         Broker {
             state: BrokerState::new(config::Config::default()),
             command_channel: (sender, Some(receiver)),
+            listener: None,
         }
     }
 }
@@ -164,6 +167,7 @@ impl Broker {
         Broker {
             state: BrokerState::new(config),
             command_channel: (sender, Some(receiver)),
+            listener: None,
         }
     }
 
@@ -175,16 +179,31 @@ impl Broker {
             .set_session_expiry(expiration);
     }
 
-    pub async fn stop(&mut self) {}
+    /// Stops accepting connections and gives up the listen address.
+    pub async fn stop(&mut self) {
+        if let Some(listener) = self.listener.take() {
+            let _ = self.command_channel.0.send(BrokerCommand::Stop).await;
+            let _ = listener.await;
+        }
+    }
 
     pub async fn run(&mut self) -> Result<(), BrokerError> {
         tracing::info!(addr = %self.state.config.listen_addr, "broker starting");
         let state = self.state.clone();
         match TcpListener::bind(self.state.config.listen_addr).await {
             Ok(listener) => {
-                let mut command = self.command_channel.1.take().unwrap();
+                let mut command = match self.command_channel.1.take() {
+                    Some(command) => command,
+                    None => {
+                        // the channel of an earlier run
+                        let (sender, receiver) =
+                            tokio::sync::mpsc::channel(config::DEFAULT_SESSION_CHANNEL_SIZE);
+                        self.command_channel.0 = sender;
+                        receiver
+                    }
+                };
 
-                let _handle: JoinHandle<Result<(), BrokerError>> = tokio::spawn(async move {
+                self.listener = Some(tokio::spawn(async move {
                     loop {
                         select! {
                             cmd = command.recv() => {
@@ -243,7 +262,7 @@ impl Broker {
                             }
                         }
                     }
-                });
+                }));
                 Ok(())
             }
             Err(e) => Err(e.into()),
-- 
2.43.0


From a7fa98cafd97e41b20627495c32b2d76cc30628d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:54 +0000
Subject: [PATCH 51/54] fix: the vaux program does not claim to have started
 when it cannot listen

---
 vaux/src/main.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vaux/src/main.rs b/vaux/src/main.rs
index 189e163..45ce10f 100644
--- a/vaux/src/main.rs
+++ b/vaux/src/main.rs
@@ -128,11 +128,11 @@ async fn main() {
     };
 
     let mut broker = Broker::new_with_config(config);
-    let result = broker.run().await;
-    println!("Broker started on: {listen_addr} ({tls_status})");
-    if let Err(e) = result {
+    if let Err(e) = broker.run().await {
         eprintln!("Error starting broker: {e}");
+        std::process::exit(1);
     }
+    println!("Broker started on: {listen_addr} ({tls_status})");
 
     tokio::signal::ctrl_c()
         .await
-- 
2.43.0


From ae4ceeb8de383af80f88321ff4f2837c4e95f7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:03 +0000
Subject: [PATCH 52/54] fix: a CONNECT that cannot be encoded fails the start
 instead of panicking

---
 vaux-client/src/session.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index 7776ba7..3629ccd 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -9,10 +9,7 @@ use tokio::sync::{Mutex, RwLock};
 use vaux_mqtt::WillMessage;
 use vaux_mqtt::publish::Publish;
 use vaux_mqtt::pubresp::PubResp;
-use vaux_mqtt::{
-    ConnAck, Connect, Packet, QoSLevel, Reason,
-    codec::{CodecSize, Encode},
-};
+use vaux_mqtt::{ConnAck, Connect, Packet, QoSLevel, Reason};
 
 const DEFAULT_MAX_PACKET_SIZE: usize = 64 * 1024;
 const DEFAULT_CLIENT_ID_PREFIX: &str = "vaux-client";
@@ -242,10 +239,6 @@ impl ClientSession {
             connect.set_will_message(will);
         }
         let mut connect_packet = Packet::Connect(Box::new(connect));
-        if let Packet::Connect(ref mut boxed_connect) = connect_packet {
-            let mut dest = bytes::BytesMut::with_capacity(boxed_connect.codec_size() as usize);
-            boxed_connect.encode(&mut dest).unwrap();
-        }
 
         match self.packet_stream.write(&mut connect_packet).await {
             Ok(_) => {
-- 
2.43.0


From 215ee59d98dcd7a1f0f320f5abfac2f500ef9efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:04 +0000
Subject: [PATCH 53/54] fix: sending CONNECT is bound by the configured wait
 too

---
 vaux-client/src/session.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index 3629ccd..f7592c6 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -240,9 +240,16 @@ impl ClientSession {
         }
         let mut connect_packet = Packet::Connect(Box::new(connect));
 
-        match self.packet_stream.write(&mut connect_packet).await {
+        let start = tokio::time::Instant::now();
+        let write = self.packet_stream.write(&mut connect_packet);
+        let Ok(written) = tokio::time::timeout(max_connect_wait, write).await else {
+            return Err(MqttError::new(
+                "unable to send CONNECT to broker",
+                ErrorKind::Timeout,
+            ));
+        };
+        match written {
             Ok(_) => {
-                let start = tokio::time::Instant::now();
                 while start.elapsed() < max_connect_wait {
                     let wait = max_connect_wait.saturating_sub(start.elapsed());
                     let Ok(next) = tokio::time::timeout(wait, self.read_next()).await else {
-- 
2.43.0


From 28495b6fa078c71cfd8a533bf68e6f8b9ccc77a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:04 +0000
Subject: [PATCH 54/54] fix: a message that has no encoding is not kept for the
 next connection

---
 vaux-client/src/session.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index f7592c6..4905447 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -426,7 +426,13 @@ impl ClientSession {
             };
             packet_state.sequence = self.next_sequence();
             self.state.pending_qos_send.insert(packet_id, packet_state);
-            self.send_packet(Packet::Publish(p)).await?;
+            if let Err(e) = self.send_packet(Packet::Publish(p)).await {
+                // what can not be encoded is not sent by a later connection either
+                if let ErrorKind::Codec = e.kind {
+                    self.state.pending_qos_send.remove(&packet_id);
+                }
+                return Err(e);
+            }
         }
         Ok(())
     }
@@ -790,7 +796,13 @@ impl ClientSession {
         self.packet_stream
             .write(&mut packet)
             .await
-            .map_err(|_| MqttError::new("unable to write packet to stream", ErrorKind::Transport))?;
+            .map_err(|e| {
+                let kind = match e {
+                    vaux_async::stream::Error::Codec(_) => ErrorKind::Codec,
+                    _ => ErrorKind::Transport,
+                };
+                MqttError::new("unable to write packet to stream", kind)
+            })?;
         // packet sent, update last active time
         self.last_active = tokio::time::Instant::now();
         Ok(())
-- 
2.43.0

