From d0908d5735de6598ef9381213597ef352214e004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:35 +0000
Subject: [PATCH 01/38] fix: reject tunneling requests shorter than their
 header instead of panicking

A total length below 10 made 'size - 10' underflow: the receive task died
and the client never recovered.
---
 src/packets/tunneling.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/packets/tunneling.rs b/src/packets/tunneling.rs
index 7b2ca92..9b3d6c3 100644
--- a/src/packets/tunneling.rs
+++ b/src/packets/tunneling.rs
@@ -47,7 +47,10 @@ impl TunnelingRequest {
         };
 
         let size = match packet_reader.read_u16::<BigEndian>() {
-            Ok(size) => size,
+            Ok(size) => {
+                ensure_whatever!(size >= 10, "Packet size should be at least 10 instead of {}", size);
+                size
+            }
             Err(e) => whatever!("Unable to read packet size {:?}", e),
         };
 
-- 
2.43.0


From d0fa755c7f3dd71019bd26fa1a67493d78e0ddd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:35 +0000
Subject: [PATCH 02/38] fix: do not overflow while skipping cEMI additional
 infos

The u8 position overflowed (panic in the receive task) when one additional
info is 254 bytes or longer, or several add up to more than 255 bytes.
---
 src/packets/emi.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/packets/emi.rs b/src/packets/emi.rs
index e606324..a5fb914 100644
--- a/src/packets/emi.rs
+++ b/src/packets/emi.rs
@@ -204,8 +204,8 @@ impl CEMI {
         };
 
         let mut additional_infos = Vec::new();
-        let mut position = 0;
-        while position < additional_infos_size {
+        let mut position = 0usize;
+        while position < additional_infos_size as usize {
             let additional_info_type: CEMIAdditionalInfoType = match packet_reader.read_u8() {
                 Ok(info_type) => match info_type.try_into() {
                     Ok(t) => t,
@@ -227,7 +227,7 @@ impl CEMI {
                 info_type: additional_info_type,
                 value: additional_info,
             });
-            position += additional_info_size + 2;
+            position += additional_info_size as usize + 2;
         }
 
         let mut service_info = Vec::new();
-- 
2.43.0


From 39892ec88aefcfbf2798e1a706a34637665273ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:35 +0000
Subject: [PATCH 03/38] fix: reject description blocks shorter than their fixed
 part instead of panicking

---
 src/packets/core.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/packets/core.rs b/src/packets/core.rs
index 92a0169..a858e8d 100644
--- a/src/packets/core.rs
+++ b/src/packets/core.rs
@@ -1072,6 +1072,7 @@ impl SupportedServiceFamiliesDIB {
     }
 
     pub fn from_packet(packet_reader: &mut Cursor<&[u8]>, structure_length: u8) -> Result<Self, Whatever> {
+        ensure_whatever!(structure_length >= 2, "Supported service families dib too short {}", structure_length);
         let mut service_families = Vec::new();
         for _ in 0..(structure_length - 2) / 2 {
             // -2 because of length and type
@@ -1233,6 +1234,7 @@ impl KNXAddressesDIB {
             .read_exact(&mut knx_individual_address)
             .whatever_context("Unable to read knx individual address")?;
 
+        ensure_whatever!(structure_length >= 4, "KNX addresses dib too short {}", structure_length);
         let mut additional_individual_addresses = Vec::new();
 
         for _ in 0..(structure_length - 4) / 2 {
-- 
2.43.0


From 6fec2409fbb5813b133a44594629e0f0b471b108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:41 +0000
Subject: [PATCH 04/38] fix: KNX addresses description block holds two byte
 individual addresses

Every address was read and written as four bytes while their number was
computed for two bytes each, so no real block could be parsed.
---
 src/packets/core.rs | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/packets/core.rs b/src/packets/core.rs
index a858e8d..c4f9b2b 100644
--- a/src/packets/core.rs
+++ b/src/packets/core.rs
@@ -1214,24 +1214,23 @@ impl IpCurrentConfigDIB {
 pub struct KNXAddressesDIB {
     pub structure_length: u8,
     pub description_type_code: DescriptionTypeCode,
-    pub knx_individual_address: Ipv4Addr,
-    pub additional_individual_addresses: Vec<Ipv4Addr>,
+    pub knx_individual_address: IndividualAddress,
+    pub additional_individual_addresses: Vec<IndividualAddress>,
 }
 
 impl KNXAddressesDIB {
     pub fn packet(&self) -> Vec<u8> {
         let mut packet = Vec::new();
-        packet.extend_from_slice(&self.knx_individual_address.octets());
+        packet.write_u16::<BigEndian>(self.knx_individual_address.to_u16()).unwrap();
         for address in &self.additional_individual_addresses {
-            packet.extend_from_slice(&address.octets());
+            packet.write_u16::<BigEndian>(address.to_u16()).unwrap();
         }
         packet
     }
 
     pub fn from_packet(packet_reader: &mut Cursor<&[u8]>, structure_length: u8) -> Result<Self, Whatever> {
-        let mut knx_individual_address = [0; 4];
-        packet_reader
-            .read_exact(&mut knx_individual_address)
+        let knx_individual_address = packet_reader
+            .read_u16::<BigEndian>()
             .whatever_context("Unable to read knx individual address")?;
 
         ensure_whatever!(structure_length >= 4, "KNX addresses dib too short {}", structure_length);
@@ -1239,17 +1238,16 @@ impl KNXAddressesDIB {
 
         for _ in 0..(structure_length - 4) / 2 {
             // - 1 byte structure length - 2 byte description type code  - 2 bytes knx individual address
-            let mut additional_individual_address = [0; 4];
-            packet_reader
-                .read_exact(&mut additional_individual_address)
+            let additional_individual_address = packet_reader
+                .read_u16::<BigEndian>()
                 .whatever_context("Unable to read additional individual address")?;
-            additional_individual_addresses.push(Ipv4Addr::from(additional_individual_address));
+            additional_individual_addresses.push(IndividualAddress::from_u16(additional_individual_address));
         }
 
         Ok(Self {
             structure_length,
             description_type_code: DescriptionTypeCode::KNXAddresses,
-            knx_individual_address: Ipv4Addr::from(knx_individual_address),
+            knx_individual_address: IndividualAddress::from_u16(knx_individual_address),
             additional_individual_addresses,
         })
     }
-- 
2.43.0


From 3b69f67b27048a67e4acb1c30186f4e7b76607d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:41 +0000
Subject: [PATCH 05/38] fix: manufacturer data description block length
 includes its four byte header

structure_length bytes were read after the manufacturer id, running four bytes
past the end of the block, so no complete block could be parsed.
---
 src/packets/core.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/packets/core.rs b/src/packets/core.rs
index c4f9b2b..7894c19 100644
--- a/src/packets/core.rs
+++ b/src/packets/core.rs
@@ -1274,7 +1274,8 @@ impl ManufacturerDataDIB {
     pub fn from_packet(packet_reader: &mut Cursor<&[u8]>, structure_length: u8) -> Result<Self, Whatever> {
         let knx_manufacturer_id = packet_reader.read_u16::<BigEndian>().whatever_context("Unable to read knx manufacturer id")?;
 
-        let mut manufacturer_specific_data = vec![0; structure_length as usize];
+        ensure_whatever!(structure_length >= 4, "Manufacturer data dib too short {}", structure_length);
+        let mut manufacturer_specific_data = vec![0; structure_length as usize - 4];
         packet_reader
             .read_exact(&mut manufacturer_specific_data)
             .whatever_context("Unable to read manufacturer specific data")?;
-- 
2.43.0


From abb3ab437fa17fa8492c964c2d6aff451f372817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:41 +0000
Subject: [PATCH 06/38] fix: count the padding byte in the description block
 structure length

A block with odd content announced an odd length one short of what it occupies,
so whatever follows it was read one byte off.
---
 src/packets/core.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/packets/core.rs b/src/packets/core.rs
index 7894c19..25a8c0d 100644
--- a/src/packets/core.rs
+++ b/src/packets/core.rs
@@ -844,14 +844,14 @@ impl DIB {
             Self::ManufacturerData(manufacturer_data) => (DescriptionTypeCode::ManufacturerData, manufacturer_data.packet()),
         };
 
-        let structure_length = 2 + data_packet.len();
+        let structure_length = 2 + data_packet.len() + data_packet.len() % 2;
         packet.write_u8(structure_length as u8).unwrap();
         packet.write_u8(type_code as u8).unwrap();
         packet.extend_from_slice(&data_packet);
 
         // 7.5.4.1
         // Structure length must be even. Add a padding of 0x00 if necessary.
-        if structure_length % 2 != 0 {
+        if data_packet.len() % 2 != 0 {
             packet.write_u8(0x00).unwrap();
         }
 
-- 
2.43.0


From d370010328d1d9f3f2ee2efdfca718dba5005b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:41 +0000
Subject: [PATCH 07/38] fix: write the description block headers in a search
 response

Length and type of both blocks were missing, the packet could not be parsed back.
---
 src/packets/core.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/packets/core.rs b/src/packets/core.rs
index 25a8c0d..9df9fe9 100644
--- a/src/packets/core.rs
+++ b/src/packets/core.rs
@@ -657,8 +657,8 @@ impl SearchResponse {
         let mut packet = vec![0x06, 0x10, 0x02, 0x02];
 
         let mut control_endpoint_packet = self.control_endpoint.packet();
-        let mut device_hardware_packet = self.device_hardware.packet();
-        let mut supported_service_families_packet = self.supported_service_families.packet();
+        let mut device_hardware_packet = DIB::DeviceInformation(self.device_hardware.clone()).packet();
+        let mut supported_service_families_packet = DIB::SupportedServiceFamilies(self.supported_service_families.clone()).packet();
         let size = packet.len() + 2 + control_endpoint_packet.len() + device_hardware_packet.len() + supported_service_families_packet.len();
 
         packet.write_u16::<BigEndian>(size as u16).unwrap();
-- 
2.43.0


From 4b87795eaed7dedcd49d69fb65423e71a540e567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:41 +0000
Subject: [PATCH 08/38] fix: write the two byte total length in a connection
 response

The length field was one byte, shifting everything after it.
---
 src/packets/core.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packets/core.rs b/src/packets/core.rs
index 9df9fe9..4498784 100644
--- a/src/packets/core.rs
+++ b/src/packets/core.rs
@@ -293,7 +293,7 @@ impl ConnectionResponse {
     }
 
     pub fn packet(&self) -> Vec<u8> {
-        let mut packet = vec![0x06, 0x10, 0x02, 0x06, 0x08, self.communication_channel_id, self.status];
+        let mut packet = vec![0x06, 0x10, 0x02, 0x06, 0x00, 0x14, self.communication_channel_id, self.status];
         packet.extend_from_slice(&self.data_endpoint.packet());
         packet.extend_from_slice(&self.crd.packet());
         packet
-- 
2.43.0


From 903f973cc8e2ac8209f8c0149cb9d13e2bf29ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:41 +0000
Subject: [PATCH 09/38] fix: write a feature response as feature response, with
 its status

The packet carried the service type of a feature set request and always status 0.
---
 src/packets/tunneling.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/packets/tunneling.rs b/src/packets/tunneling.rs
index 9b3d6c3..a6eb9c5 100644
--- a/src/packets/tunneling.rs
+++ b/src/packets/tunneling.rs
@@ -209,13 +209,13 @@ pub struct FeatureResp {
 
 impl FeatureResp {
     pub fn packet(&self) -> Vec<u8> {
-        let mut packet = vec![0x06, 0x10, 0x04, 0x24, 0, 0x0d];
+        let mut packet = vec![0x06, 0x10, 0x04, 0x23, 0, 0x0d];
         packet.write_u8(4).unwrap();
         packet.write_u8(self.communication_channel_id).unwrap();
         packet.write_u8(self.sequence_nr).unwrap();
         packet.write_u8(0).unwrap();
         packet.write_u8(self.feature as u8).unwrap();
-        packet.write_u8(0).unwrap();
+        packet.write_u8(self.status).unwrap();
         packet.write_u8(self.value).unwrap();
         packet
     }
-- 
2.43.0


From 4ff9e57eb4c3c565b9ccd5e57693a6c6e62e651a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:31 +0000
Subject: [PATCH 10/38] fix: accept device friendly names shorter than 30 bytes

DeviceInformationDIB::new failed for every name that is not exactly 30 bytes.
---
 src/packets/core.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/packets/core.rs b/src/packets/core.rs
index 4498784..5f854ae 100644
--- a/src/packets/core.rs
+++ b/src/packets/core.rs
@@ -956,9 +956,11 @@ impl DeviceInformationDIB {
         mac_address: [u8; 6],
         friendly_name: String,
     ) -> Result<Self, Whatever> {
-        let friendly_name = ISO_8859_1
+        let mut friendly_name = ISO_8859_1
             .encode(&friendly_name, EncoderTrap::Strict)
             .whatever_context("Unable to encode device friendly name")?;
+        ensure_whatever!(friendly_name.len() <= 30, "Encoded friendly name length exceeds 30 bytes");
+        friendly_name.resize(30, 0x00);
         let friendly_name = friendly_name
             .try_into()
             .map_err(|_err| "")
-- 
2.43.0


From a9952205e1cb42e9ce1ab9576805e484170dfea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:31 +0000
Subject: [PATCH 11/38] fix: report truncated frames instead of filling them up
 with zeros

read() stops silently at the end of the data, so a value, an additional info
or a whole cEMI frame shorter than announced was completed with zero bytes.
---
 src/packets/emi.rs       | 4 ++--
 src/packets/tunneling.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/packets/emi.rs b/src/packets/emi.rs
index a5fb914..2115cf4 100644
--- a/src/packets/emi.rs
+++ b/src/packets/emi.rs
@@ -114,7 +114,7 @@ impl LDataInd {
 
         let mut value = vec![0; length as usize];
         if length > 0 {
-            if let Err(e) = reader.read(&mut value) {
+            if let Err(e) = reader.read_exact(&mut value) {
                 whatever!("Unable to read value of length {}, {:?}", length, e);
             }
         } else {
@@ -219,7 +219,7 @@ impl CEMI {
             };
 
             let mut additional_info = vec![0; additional_info_size as usize];
-            if let Err(e) = packet_reader.read(&mut additional_info) {
+            if let Err(e) = packet_reader.read_exact(&mut additional_info) {
                 whatever!("Unable to read additional info {:?}", e);
             }
 
diff --git a/src/packets/tunneling.rs b/src/packets/tunneling.rs
index a6eb9c5..f04e51e 100644
--- a/src/packets/tunneling.rs
+++ b/src/packets/tunneling.rs
@@ -77,7 +77,7 @@ impl TunnelingRequest {
         };
 
         let mut cemi = vec![0; size as usize - 10];
-        if let Err(e) = packet_reader.read(&mut cemi) {
+        if let Err(e) = packet_reader.read_exact(&mut cemi) {
             whatever!("Unable to read cemi part {:?}", e);
         }
 
-- 
2.43.0


From 389067a9ff2d5ee6990494926996d171eaf69d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:31 +0000
Subject: [PATCH 12/38] fix: parse exactly the received datagram

The receive buffer cut datagrams at 100 bytes and shorter ones were parsed
together with the zeros behind them, both yield data that was never sent.
---
 src/transport/udp.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 9142dea..ec7074d 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -406,8 +406,9 @@ async fn try_connection(socket: Arc<MyUdpSocket>) -> Result<ConnectionResponse,
 
 pub(crate) async fn handle_recv_from_knx_device(socket: Arc<MyUdpSocket>, from_knx_tx: Sender<CEMI>) -> TransportResult<String> {
     loop {
-        let mut data = vec![0; 100];
+        let mut data = vec![0; 1024];
         let count = socket.recv(&mut data).await.map_err(|e| format!("UPD Socket was closed {:?}", e))?;
+        data.truncate(count);
 
         if count > 0 {
             let resp = parse_response(data)?;
-- 
2.43.0


From d7929b74fa42499575f9279ba53950da544b8c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:32 +0000
Subject: [PATCH 13/38] fix: reject address texts whose parts do not fit their
 bits

'0/8/0', '32/0/1' or '16.0.1' were accepted and silently encoded as other
valid addresses ('1/0/0', '0/0/1', '0.0.1').
---
 src/packets/addresses.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/packets/addresses.rs b/src/packets/addresses.rs
index 6676108..4b55169 100644
--- a/src/packets/addresses.rs
+++ b/src/packets/addresses.rs
@@ -60,6 +60,7 @@ impl TryFrom<&str> for KnxAddress {
             } else if parts.len() == 2 {
                 let main = parts.first().unwrap();
                 let main = match main.parse::<u8>() {
+                    Ok(main) if main > 31 => whatever!("Main address {} out of range 0-31", main),
                     Ok(main) => main,
                     Err(e) => whatever!("Unable to parse main address {:?}", e),
                 };
@@ -73,11 +74,13 @@ impl TryFrom<&str> for KnxAddress {
             } else if parts.len() == 3 {
                 let main = parts.first().unwrap();
                 let main = match main.parse::<u8>() {
+                    Ok(main) if main > 31 => whatever!("Main address {} out of range 0-31", main),
                     Ok(main) => main,
                     Err(e) => whatever!("Unable to parse main address {:?}", e),
                 };
                 let mid = parts.get(1).unwrap();
                 let mid = match mid.parse::<u8>() {
+                    Ok(mid) if mid > 7 => whatever!("Mid address {} out of range 0-7", mid),
                     Ok(mid) => mid,
                     Err(e) => whatever!("Unable to parse mid address {:?}", e),
                 };
@@ -133,10 +136,12 @@ impl TryFrom<&str> for IndividualAddress {
             whatever!("Individial address should be in the format area.line.address instead of {:?}", value);
         }
         let area = match parts.first().unwrap().parse::<u8>() {
+            Ok(a) if a > 15 => whatever!("Area value {} out of range 0-15", a),
             Ok(a) => a,
             Err(e) => whatever!("Unable to parse area value {:?}, error {:?}", parts.first(), e),
         };
         let line = match parts.get(1).unwrap().parse::<u8>() {
+            Ok(l) if l > 15 => whatever!("Line value {} out of range 0-15", l),
             Ok(l) => l,
             Err(e) => whatever!("Unable to parse line value {:?}, error {:?}", parts.get(1), e),
         };
@@ -177,8 +182,8 @@ impl TryFrom<&str> for Group3LevelAddress {
         }
 
         match (parts[0].parse::<u8>(), parts[1].parse::<u8>(), parts[2].parse::<u8>()) {
-            (Ok(main), Ok(middle), Ok(sub)) => Ok(Self { main, middle, sub }),
-            _ => whatever!("Unable to parse parts in u8"),
+            (Ok(main), Ok(middle), Ok(sub)) if main <= 31 && middle <= 7 => Ok(Self { main, middle, sub }),
+            _ => whatever!("Unable to parse parts, or out of range"),
         }
     }
 }
-- 
2.43.0


From e50b565860f085e5870bc29bdef563bd3e0a4ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:32 +0000
Subject: [PATCH 14/38] fix: main group of a two level group address starts at
 bit 11

A two level group address is 5 bits main and 11 bits sub: '1/2' was sent as
0x0102, which is '0/258'.
---
 src/packets/addresses.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packets/addresses.rs b/src/packets/addresses.rs
index 4b55169..5c988ea 100644
--- a/src/packets/addresses.rs
+++ b/src/packets/addresses.rs
@@ -224,7 +224,7 @@ impl fmt::Debug for Group2LevelAddress {
 impl Group2LevelAddress {
     pub fn to_u16(&self) -> u16 {
         let mut addr = 0u16;
-        addr |= (self.main as u16) << 8_u16;
+        addr |= (self.main as u16) << 11_u16;
         addr |= (self.sub) as u16;
 
         addr
-- 
2.43.0


From c743fe0af464afa209615592efff7839edb6286b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:56 +0000
Subject: [PATCH 15/38] fix: parse exactly the received connection response

A truncated response was completed with zeros and accepted.
---
 src/transport/udp.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index ec7074d..5f85383 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -389,8 +389,10 @@ async fn try_connection(socket: Arc<MyUdpSocket>) -> Result<ConnectionResponse,
     }
 
     let mut resp = vec![0; 100];
-    if let Err(e) = timeout(Duration::from_secs(30), socket.recv(&mut resp)).await {
-        whatever!("Target device does not respond {:?}", e);
+    match timeout(Duration::from_secs(30), socket.recv(&mut resp)).await {
+        Ok(Ok(count)) => resp.truncate(count),
+        Ok(Err(e)) => whatever!("Unable to receive connection response {:?}", e),
+        Err(e) => whatever!("Target device does not respond {:?}", e),
     }
     debug!("Connection response {:0x?}", resp);
 
-- 
2.43.0


From 18b95815fec0e84ce6060c969c13b1a1343e92f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:56 +0000
Subject: [PATCH 16/38] fix: the exponent of a two byte float is unsigned

Exponents 8 to 15 were decoded as 7 down to 0: 5000 came back as 1250.
---
 src/dp_types.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/dp_types.rs b/src/dp_types.rs
index 89cb7ed..18b1152 100644
--- a/src/dp_types.rs
+++ b/src/dp_types.rs
@@ -252,12 +252,7 @@ fn bytes_to_float(bytes: &[u8]) -> Result<f32, Whatever> {
         Err(e) => whatever!("Wrong bytes count, {:?}", e),
     });
     let sign = if value & 0x8000 > 0 { -1f32 } else { 1f32 };
-    let mut exp = ((value & 0b0111_1000_0000_0000) >> 11) as i16;
-    if (exp & 8) > 0 {
-        exp -= 1;
-        exp ^= 0xf;
-        exp += -1;
-    }
+    let exp = ((value & 0b0111_1000_0000_0000) >> 11) as i16;
     let mut mantissa = value & 0x07ff;
     if sign < 0.0 {
         mantissa -= 1;
-- 
2.43.0


From f0843654859ae832b69b9d15c19dfa4152732996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:56 +0000
Subject: [PATCH 17/38] fix: decode two byte floats with sign bit and zero
 mantissa

0x8000 is -20.48; computing its magnitude underflowed (panic, or a wrong value).
---
 src/dp_types.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/dp_types.rs b/src/dp_types.rs
index 18b1152..8fbd2c0 100644
--- a/src/dp_types.rs
+++ b/src/dp_types.rs
@@ -255,8 +255,7 @@ fn bytes_to_float(bytes: &[u8]) -> Result<f32, Whatever> {
     let exp = ((value & 0b0111_1000_0000_0000) >> 11) as i16;
     let mut mantissa = value & 0x07ff;
     if sign < 0.0 {
-        mantissa -= 1;
-        mantissa ^= 0x7ff;
+        mantissa = 0x800 - mantissa;
     }
     let mantissa: f32 = mantissa as f32 * sign;
     Ok((0.01 * mantissa) * (1 << exp) as f32)
-- 
2.43.0


From ce97e61275bd54dabfb74a5d1f1594c8d4840697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:56 +0000
Subject: [PATCH 18/38] fix: keep the two byte float mantissa within 11 bits

2048 rounded into the mantissa was cut to zero: 20.48 was encoded as 0.
---
 src/dp_types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dp_types.rs b/src/dp_types.rs
index 8fbd2c0..f7abc13 100644
--- a/src/dp_types.rs
+++ b/src/dp_types.rs
@@ -232,7 +232,7 @@ fn calimero_float_to_bytes(v: f32) -> Vec<u8> {
         v /= 2.0;
         exp += 1;
     }
-    while v > 2048.0 {
+    while v > 2047.0 {
         v /= 2.0;
         exp += 1;
     }
-- 
2.43.0


From 958cc0aa3be9b27cda284257b71b8f7377b1cb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:56 +0000
Subject: [PATCH 19/38] fix: negative values that round to zero are encoded as
 zero

Sign bit with zero mantissa means -20.48: that is what -0.001 was encoded as.
---
 src/dp_types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dp_types.rs b/src/dp_types.rs
index f7abc13..6cd429a 100644
--- a/src/dp_types.rs
+++ b/src/dp_types.rs
@@ -239,7 +239,7 @@ fn calimero_float_to_bytes(v: f32) -> Vec<u8> {
 
     let m = v.round() as i16 & 0x7ff;
     let mut msb: u8 = (exp << 3 | m >> 8) as u8;
-    if v < 0.0 {
+    if v.round() < 0.0 {
         msb |= 0x80;
     }
     let lsb = (m & 0xff) as u8;
-- 
2.43.0


From 01a5270166ddd05e4e76c82df484e67bbbe9a520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:56 +0000
Subject: [PATCH 20/38] fix: limit two byte floats to their range

Larger values overflowed the exponent into the sign bit, infinity never returned.
---
 src/dp_types.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dp_types.rs b/src/dp_types.rs
index 6cd429a..0a088a2 100644
--- a/src/dp_types.rs
+++ b/src/dp_types.rs
@@ -226,7 +226,8 @@ fn _float_to_bytes(value: f32) -> Vec<u8> {
 // https://github.com/calimero-project/calimero-core/blob/d6fee46dbfeda9ddc90e77e25444dc1b1dd98f82/src/tuwien/auto/calimero/dptxlator/DPTXlator2ByteFloat.java#L300
 //
 fn calimero_float_to_bytes(v: f32) -> Vec<u8> {
-    let mut v = v * 100.0;
+    // Range of the format: -2048 * 2^15 to 2047 * 2^15 hundredths
+    let mut v = (v * 100.0).clamp(-67108864.0, 67076096.0);
     let mut exp = 0;
     while v < -2048.0 {
         v /= 2.0;
-- 
2.43.0


From fbc46e95b89856fe4028592078ba39468cb07bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:56 +0000
Subject: [PATCH 21/38] fix: percent_v16 and PdtKnxByte::is_small do not panic

percent_v16 overflowed beyond +-327 %, is_small of the one byte type was todo!().
---
 src/dp_types.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dp_types.rs b/src/dp_types.rs
index 0a088a2..ab85175 100644
--- a/src/dp_types.rs
+++ b/src/dp_types.rs
@@ -120,7 +120,7 @@ impl PdtKnxInt {
         Self {
             code: "8.010".to_string(),
             unit: "%".to_string(),
-            value: value * 100,
+            value: value.saturating_mul(100),
         }
     }
 }
@@ -295,7 +295,7 @@ impl Pdt<u8> for PdtKnxByte {
     }
 
     fn is_small(&self) -> bool {
-        todo!()
+        false
     }
 }
 
-- 
2.43.0


From 36c09546b7437b40e8d032ce6e6ad0be3f11866d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:56 +0000
Subject: [PATCH 22/38] fix: a small group write without data does not panic

Same default as group_value_write_pd.
---
 src/packets/apdu.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packets/apdu.rs b/src/packets/apdu.rs
index 2d50caf..ea489d6 100644
--- a/src/packets/apdu.rs
+++ b/src/packets/apdu.rs
@@ -28,7 +28,7 @@ impl APDU {
     }
 
     pub fn group_value_write(data: Vec<u8>, small: bool) -> Self {
-        let data = if small { APDUData::Small(data[0]) } else { APDUData::Big(data) };
+        let data = if small { APDUData::Small(*data.first().unwrap_or(&0)) } else { APDUData::Big(data) };
         Self {
             apci: APCI::a_group_value_write(),
             data,
-- 
2.43.0


From b495a3ff59472f7ee5b45f2b01ced700ebdc1549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:18 +0000
Subject: [PATCH 23/38] fix: answer disconnect requests of the KNXIP device

DisconnectRequest::from_packet did not read the KNXnet/IP header, so no
disconnect request could be parsed and none was ever answered. The session is
re-created afterwards, as it was when the request could not be parsed.
---
 src/packets/core.rs  | 13 ++++++-------
 src/transport/udp.rs |  2 +-
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/packets/core.rs b/src/packets/core.rs
index 5f854ae..b6ea7cf 100644
--- a/src/packets/core.rs
+++ b/src/packets/core.rs
@@ -476,13 +476,12 @@ impl DisconnectRequest {
     }
 
     pub fn from_packet(packet_reader: &mut Cursor<&[u8]>) -> Result<Self, Whatever> {
-        let header_size = match packet_reader.read_u8() {
-            Ok(header_size) => {
-                ensure_whatever!(header_size >= 8, "Header size should be at least 8 instead of {}", header_size);
-                header_size
-            }
-            Err(e) => whatever!("Unable to read header size {:?}", e),
-        };
+        let header = KnxNetIpHeader::from_packet(packet_reader)?;
+        ensure_whatever!(
+            header.service_type_identifier == 0x0209,
+            "Disconnect request should be 0x0209 instead of {:2X}",
+            header.service_type_identifier
+        );
 
         let communication_channel_id = match packet_reader.read_u8() {
             Ok(communication_channel_id) => communication_channel_id,
diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 5f85383..752087c 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -463,7 +463,7 @@ pub(crate) async fn handle_recv_from_knx_device(socket: Arc<MyUdpSocket>, from_k
                     if let Err(e) = socket.send(&disconnect_resp.packet()).await {
                         warn!("Unable to send disconnect response to knxip target {:?}", e);
                     }
-                    break Ok("KNX device requested disconnection".into());
+                    whatever!("KNX device requested disconnection");
                 }
             }
         }
-- 
2.43.0


From 27a4c85db1c87c4c5e8268b75ef6a73166324369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:18 +0000
Subject: [PATCH 24/38] fix: take channel id and sequence number of a request
 from one session

They were read under two separate locks, a reconnection in between mixed two
sessions. A request that could not be sent also used up its number, after which
the device discards every request of the session as out of sequence.
---
 src/transport/udp.rs         | 12 ++++++++++--
 src/transport/udp_monitor.rs | 12 ++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 752087c..a1635ca 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -234,8 +234,15 @@ impl UdpTransport {
     }
 
     pub async fn tunnel_req(&self, req: Vec<u8>) -> Result<(), Whatever> {
-        let sequence_nr = self.get_next_sequence_nr().await?;
-        let tunneled_req = TunnelingRequest::new(self.get_communication_channel_id().await?, sequence_nr, req);
+        // Channel id and sequence number must belong to the same session, the number
+        // is only used up when the request was sent
+        //
+        let mut connection_data = self.connection_data.lock().await;
+        let data = match connection_data.as_mut() {
+            Some(data) => data,
+            None => whatever!("Disconnected from knx device, NR"),
+        };
+        let tunneled_req = TunnelingRequest::new(data.communication_channel_id, data.sequence_nr, req);
         debug!("TunnelingRequest {:?}", tunneled_req);
         let req = tunneled_req.packet();
         debug!("======================");
@@ -244,6 +251,7 @@ impl UdpTransport {
         if let Err(e) = self.socket.send(&req).await {
             whatever!("Unable to send request {:?}", e);
         }
+        data.sequence_nr = data.sequence_nr.wrapping_add(1);
         Ok(())
     }
 
diff --git a/src/transport/udp_monitor.rs b/src/transport/udp_monitor.rs
index 573c883..0de2959 100644
--- a/src/transport/udp_monitor.rs
+++ b/src/transport/udp_monitor.rs
@@ -212,8 +212,15 @@ impl UdpMonitorTransport {
     }
 
     pub async fn tunnel_req(&self, req: Vec<u8>) -> Result<(), Whatever> {
-        let sequence_nr = self.get_next_sequence_nr().await?;
-        let tunneled_req = TunnelingRequest::new(self.communication_channel_id().await?, sequence_nr, req);
+        // Channel id and sequence number must belong to the same session, the number
+        // is only used up when the request was sent
+        //
+        let mut connection_data = self.connection_data.lock().await;
+        let data = match connection_data.as_mut() {
+            Some(data) => data,
+            None => whatever!("Disconnected from knx device, NR"),
+        };
+        let tunneled_req = TunnelingRequest::new(data.communication_channel_id, data.sequence_nr, req);
         debug!("TunnelingRequest {:?}", tunneled_req);
         let req = tunneled_req.packet();
         debug!("======================");
@@ -222,6 +229,7 @@ impl UdpMonitorTransport {
         if let Err(e) = self.socket.send(&req).await {
             whatever!("Unable to send request {:?}", e);
         }
+        data.sequence_nr = data.sequence_nr.wrapping_add(1);
         Ok(())
     }
 
-- 
2.43.0


From ca3126d98c999ae93b9cb8c3cf4da9ab92664608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:29 +0000
Subject: [PATCH 25/38] fix: no session is left when the receive task ends
 after a disconnection

---
 src/transport/udp.rs         | 1 +
 src/transport/udp_monitor.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index a1635ca..34e4266 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -182,6 +182,7 @@ impl UdpTransport {
                     let mut data = connection_data.lock().await;
                     *data = None;
                 }
+                *connection_data.lock().await = None;
                 debug!("UpdTransport receive task exited");
             }
         });
diff --git a/src/transport/udp_monitor.rs b/src/transport/udp_monitor.rs
index 0de2959..de0ea24 100644
--- a/src/transport/udp_monitor.rs
+++ b/src/transport/udp_monitor.rs
@@ -154,6 +154,7 @@ impl UdpMonitorTransport {
                     let mut data = connection_data.lock().await;
                     *data = None;
                 }
+                *connection_data.lock().await = None;
                 debug!("UpdTransport receive task ended");
             }
         });
-- 
2.43.0


From d8549341f9ca7750dfd6e323df3205312afde58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:30 +0000
Subject: [PATCH 26/38] fix: report send errors of disconnect and search
 instead of panicking

---
 src/transport/udp.rs         | 11 ++++++-----
 src/transport/udp_monitor.rs |  4 +++-
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 34e4266..71dcdee 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -271,7 +271,9 @@ impl UdpTransport {
     pub async fn disconnect(&self) -> Result<(), Whatever> {
         let req = DisconnectRequest::new(self.get_communication_channel_id().await?, self.get_control_endpoint().await?).packet();
         debug!("Request disconnect for connection {}", self.get_communication_channel_id().await?);
-        self.socket.send(&req).await.expect("Unable to send request");
+        if let Err(e) = self.socket.send(&req).await {
+            whatever!("Unable to send request {:?}", e);
+        }
 
         let mut rx = self.rx.lock().await;
         match rx.recv().await {
@@ -295,10 +297,9 @@ impl UdpTransport {
 
         let req = SearchRequest::udp_unicast(local_addr).packet();
         debug!("Sending search request {:0x?}", req);
-        socket
-            .send_to(&req, (SYSTEM_MULTICAST_ADDRESS, DISCOVERY_ENDPOINT_PORT))
-            .await
-            .expect("Unable to send request");
+        if let Err(e) = socket.send_to(&req, (SYSTEM_MULTICAST_ADDRESS, DISCOVERY_ENDPOINT_PORT)).await {
+            whatever!("Unable to send request {:?}", e);
+        }
 
         let mut buffer = vec![0; 100];
         let mut responses = Vec::new();
diff --git a/src/transport/udp_monitor.rs b/src/transport/udp_monitor.rs
index de0ea24..6008dc2 100644
--- a/src/transport/udp_monitor.rs
+++ b/src/transport/udp_monitor.rs
@@ -238,7 +238,9 @@ impl UdpMonitorTransport {
         let communication_channel_id = self.communication_channel_id().await?;
         let req = DisconnectRequest::new(communication_channel_id, self.control_endpoint().await?).packet();
         debug!("Request disconnect for connection {}", communication_channel_id);
-        self.socket.send(&req).await.expect("Unable to send request");
+        if let Err(e) = self.socket.send(&req).await {
+            whatever!("Unable to send request {:?}", e);
+        }
 
         let mut resp = vec![0; 100];
         self.socket.recv(&mut resp).await.expect("Unable to get response");
-- 
2.43.0


From d26bebe47bac28cc6dcb7f80d38ff1effacecabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:30 +0000
Subject: [PATCH 27/38] fix: a full receive queue does not stall acks and heart
 beats

---
 src/transport/udp.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 71dcdee..454b664 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -4,7 +4,7 @@ use crate::transport;
 use std::sync::Arc;
 use std::time::Duration;
 use std::{io::Cursor, net::SocketAddr};
-use tokio::sync::mpsc::Sender;
+use tokio::sync::mpsc::{error::TrySendError, Sender};
 use tokio::time::{interval, sleep, timeout};
 use tokio::{io, select};
 
@@ -441,8 +441,11 @@ pub(crate) async fn handle_recv_from_knx_device(socket: Arc<MyUdpSocket>, from_k
                             continue;
                         }
                     };
-                    match from_knx_tx.send(cemi).await {
+                    // Never wait for the consumer, acks and heart beats depend on this task
+                    //
+                    match from_knx_tx.try_send(cemi) {
                         Ok(_) => (),
+                        Err(TrySendError::Full(cemi)) => warn!("Receive queue is full, discard {:?}", cemi),
                         Err(e) => whatever!("Unable to pass received request from knx device, {:?}", e),
                     };
                 }
-- 
2.43.0


From 990c8b59f26c9bb63697d948e0b41384b51c1497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:31 +0000
Subject: [PATCH 28/38] fix: a listener that does not consume its connect
 notifications does not block the monitor

---
 src/transport/udp_monitor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/transport/udp_monitor.rs b/src/transport/udp_monitor.rs
index 6008dc2..b8b2ce4 100644
--- a/src/transport/udp_monitor.rs
+++ b/src/transport/udp_monitor.rs
@@ -31,7 +31,7 @@ use std::sync::Arc;
 use std::time::Duration;
 use tokio::net::ToSocketAddrs;
 use tokio::net::UdpSocket;
-use tokio::sync::{mpsc, Mutex};
+use tokio::sync::{mpsc, mpsc::error::TrySendError, Mutex};
 use tokio::time::interval;
 use tracing::instrument;
 
@@ -112,7 +112,7 @@ impl UdpMonitorTransport {
                         let mut active_on_connection = Vec::new();
                         let mut on_connection = on_connection.lock().await;
                         for tx in on_connection.iter() {
-                            if tx.send(()).await.is_ok() {
+                            if !matches!(tx.try_send(()), Err(TrySendError::Closed(_))) {
                                 active_on_connection.push(tx.clone());
                             }
                         }
-- 
2.43.0


From 4e20c0579b7ce624edb587bf6330350e390d1aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:32 +0000
Subject: [PATCH 29/38] fix: control responses reach the request that waits for
 them

---
 src/packets/core.rs          |  4 +-
 src/transport/udp.rs         | 77 +++++++++++++++++++++++++-----------
 src/transport/udp_monitor.rs | 32 +++++++--------
 3 files changed, 73 insertions(+), 40 deletions(-)

diff --git a/src/packets/core.rs b/src/packets/core.rs
index b6ea7cf..6ce3202 100644
--- a/src/packets/core.rs
+++ b/src/packets/core.rs
@@ -390,7 +390,7 @@ impl ConnectionstateRequest {
 pub const E_CONNECTION_ID: u8 = 0x21;
 pub const E_DATA_CONNECTION: u8 = 0x26;
 pub const E_KNX_CONNECTION: u8 = 0x27;
-#[derive(Debug)]
+#[derive(Debug, Clone)]
 pub struct ConnectionstateResponse {
     pub communication_channel_id: u8,
     pub status: u8,
@@ -518,7 +518,7 @@ impl DisconnectRequest {
 // Disconnect Response
 // 03.08.02 Core section 7.8.6
 //
-#[derive(Debug)]
+#[derive(Debug, Clone)]
 pub struct DisconnectResponse {
     pub communication_channel_id: u8,
     pub status: u8,
diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 454b664..ebc351d 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -5,7 +5,7 @@ use std::sync::Arc;
 use std::time::Duration;
 use std::{io::Cursor, net::SocketAddr};
 use tokio::sync::mpsc::{error::TrySendError, Sender};
-use tokio::time::{interval, sleep, timeout};
+use tokio::time::{interval, sleep, timeout, timeout_at, Instant};
 use tokio::{io, select};
 
 use log::{debug, info, trace, warn};
@@ -101,6 +101,7 @@ struct UdpTransport {
     socket: Arc<MyUdpSocket>,
     connection_data: Arc<Mutex<Option<ConnectionData>>>,
     rx: Arc<Mutex<mpsc::Receiver<CEMI>>>,
+    control_rx: Mutex<mpsc::Receiver<TunnelingResponse>>,
 }
 
 impl UdpTransport {
@@ -121,6 +122,7 @@ impl UdpTransport {
         let connection_data: Arc<Mutex<Option<ConnectionData>>> = Arc::new(Mutex::new(None));
 
         let (from_knx_tx, rx) = mpsc::channel(100);
+        let (control_tx, control_rx) = mpsc::channel(100);
 
         tokio::spawn({
             let socket = socket.clone();
@@ -151,7 +153,7 @@ impl UdpTransport {
 
                     'recv: loop {
                         tokio::select! {
-                            resp = handle_recv_from_knx_device(socket.clone(), from_knx_tx.clone()) => {
+                            resp = handle_recv_from_knx_device(socket.clone(), from_knx_tx.clone(), control_tx.clone()) => {
                                 info!("Recieve messages from knx device task exited with result {:?}", resp);
                                 if resp.is_ok() {
                                     debug!("Exit from reconnection loop");
@@ -191,6 +193,7 @@ impl UdpTransport {
             socket,
             connection_data,
             rx: Arc::new(Mutex::new(rx)),
+            control_rx: Mutex::new(control_rx),
         })
     }
 
@@ -221,17 +224,13 @@ impl UdpTransport {
 
     pub async fn get_connectionstate(&self) -> TransportResult<ConnectionstateResponse> {
         let req = ConnectionstateRequest::new(self.get_communication_channel_id().await?, self.get_control_endpoint().await?);
-        if let Err(e) = self.socket.send(&req.packet()).await {
-            whatever!("Unable to send connection state request {:?}", e);
-        };
-
-        let mut resp = vec![0; 100];
-        if let Err(e) = self.socket.recv(&mut resp).await {
-            whatever!("Connectionstate not responded {:?}", e);
-        }
+        let resp = control_req(&self.socket, &self.control_rx, &req.packet(), |resp| match resp {
+            TunnelingResponse::ConnectionstateResponse(resp) => Some(resp),
+            _ => None,
+        })
+        .await?;
         debug!("Connectiostate response {:0x?}", resp);
-        let mut cursor = Cursor::new(resp.as_slice());
-        Ok(ConnectionstateResponse::from_packet(&mut cursor)?)
+        Ok(resp)
     }
 
     pub async fn tunnel_req(&self, req: Vec<u8>) -> Result<(), Whatever> {
@@ -271,15 +270,13 @@ impl UdpTransport {
     pub async fn disconnect(&self) -> Result<(), Whatever> {
         let req = DisconnectRequest::new(self.get_communication_channel_id().await?, self.get_control_endpoint().await?).packet();
         debug!("Request disconnect for connection {}", self.get_communication_channel_id().await?);
-        if let Err(e) = self.socket.send(&req).await {
-            whatever!("Unable to send request {:?}", e);
-        }
-
-        let mut rx = self.rx.lock().await;
-        match rx.recv().await {
-            Some(_resp) => Ok(()),
-            None => whatever!("Transport closed before disconnection response"),
-        }
+        control_req(&self.socket, &self.control_rx, &req, |resp| match resp {
+            TunnelingResponse::DisconnectResponse(resp) => Some(resp),
+            _ => None,
+        })
+        .await?;
+        *self.connection_data.lock().await = None;
+        Ok(())
     }
 
     pub async fn search(timeout: Duration) -> Result<Vec<SearchResponse>, Whatever> {
@@ -416,7 +413,41 @@ async fn try_connection(socket: Arc<MyUdpSocket>) -> Result<ConnectionResponse,
     Ok(connection)
 }
 
-pub(crate) async fn handle_recv_from_knx_device(socket: Arc<MyUdpSocket>, from_knx_tx: Sender<CEMI>) -> TransportResult<String> {
+// Sends a control request and waits for its response. Only the receive task reads from
+// the socket, it passes the control responses on
+//
+pub(crate) async fn control_req<T>(
+    socket: &MyUdpSocket,
+    control_rx: &Mutex<mpsc::Receiver<TunnelingResponse>>,
+    req: &[u8],
+    accept: impl Fn(TunnelingResponse) -> Option<T>,
+) -> Result<T, Whatever> {
+    let mut control_rx = control_rx.lock().await;
+    while control_rx.try_recv().is_ok() {}
+
+    if let Err(e) = socket.send(req).await {
+        whatever!("Unable to send control request {:?}", e);
+    }
+
+    let deadline = Instant::now() + Duration::from_secs(10);
+    loop {
+        match timeout_at(deadline, control_rx.recv()).await {
+            Ok(Some(resp)) => {
+                if let Some(resp) = accept(resp) {
+                    return Ok(resp);
+                }
+            }
+            Ok(None) => whatever!("Transport closed before the response"),
+            Err(_) => whatever!("Control request timed out"),
+        }
+    }
+}
+
+pub(crate) async fn handle_recv_from_knx_device(
+    socket: Arc<MyUdpSocket>,
+    from_knx_tx: Sender<CEMI>,
+    control_tx: Sender<TunnelingResponse>,
+) -> TransportResult<String> {
     loop {
         let mut data = vec![0; 1024];
         let count = socket.recv(&mut data).await.map_err(|e| format!("UPD Socket was closed {:?}", e))?;
@@ -458,12 +489,14 @@ pub(crate) async fn handle_recv_from_knx_device(socket: Arc<MyUdpSocket>, from_k
                     }
                 }
                 TunnelingResponse::ConnectionstateResponse(resp) => {
+                    let _ = control_tx.try_send(TunnelingResponse::ConnectionstateResponse(resp.clone()));
                     if resp.status != 0 {
                         warn!("Connection state response with error {}", resp.status);
                         whatever!("KNX device signaled a connection state error");
                     }
                 }
                 TunnelingResponse::DisconnectResponse(resp) => {
+                    let _ = control_tx.try_send(TunnelingResponse::DisconnectResponse(resp.clone()));
                     if resp.status == 0 {
                         info!("Successfully disconnected");
                     } else {
diff --git a/src/transport/udp_monitor.rs b/src/transport/udp_monitor.rs
index b8b2ce4..660b636 100644
--- a/src/transport/udp_monitor.rs
+++ b/src/transport/udp_monitor.rs
@@ -4,7 +4,6 @@ use crate::packets::apdu::APDU;
 use crate::packets::core::ConnectionResponse;
 use crate::packets::core::ConnectionstateRequest;
 use crate::packets::core::DisconnectRequest;
-use crate::packets::core::DisconnectResponse;
 use crate::packets::core::HPAI;
 use crate::packets::emi::CEMIMessageCode;
 use crate::packets::emi::LDataCon;
@@ -16,8 +15,10 @@ use crate::packets::tunneling::FeatureSet;
 use crate::packets::tunneling::KnxIpFeature;
 use crate::packets::tunneling::TunnelingRequest;
 use crate::transport::udp::connect;
+use crate::transport::udp::control_req;
 use crate::transport::udp::handle_recv_from_knx_device;
 use crate::transport::udp::MyUdpSocket;
+use crate::transport::udp::TunnelingResponse;
 use log::debug;
 use log::info;
 use log::warn;
@@ -25,7 +26,6 @@ use snafu::whatever;
 use snafu::ResultExt;
 use snafu::Whatever;
 use std::fmt::Debug;
-use std::io::Cursor;
 use std::net::SocketAddr;
 use std::sync::Arc;
 use std::time::Duration;
@@ -55,6 +55,7 @@ struct UdpMonitorTransport {
     socket: Arc<MyUdpSocket>,
     connection_data: Arc<Mutex<Option<ConnectionData>>>,
     rx: Arc<Mutex<mpsc::Receiver<CEMI>>>,
+    control_rx: Mutex<mpsc::Receiver<TunnelingResponse>>,
     on_connection: Arc<Mutex<Vec<mpsc::Sender<()>>>>,
 }
 
@@ -76,6 +77,7 @@ impl UdpMonitorTransport {
         let connection_data: Arc<Mutex<Option<ConnectionData>>> = Arc::new(Mutex::new(None));
 
         let (from_knx_tx, rx) = mpsc::channel(100);
+        let (control_tx, control_rx) = mpsc::channel(100);
         let on_connection = Arc::new(Mutex::new(Vec::<mpsc::Sender<()>>::new()));
 
         tokio::spawn({
@@ -121,7 +123,7 @@ impl UdpMonitorTransport {
 
                     loop {
                         tokio::select! {
-                            resp = handle_recv_from_knx_device(socket.clone(), from_knx_tx.clone()) => {
+                            resp = handle_recv_from_knx_device(socket.clone(), from_knx_tx.clone(), control_tx.clone()) => {
                                 info!("Recieve messages from knx device task exited with result {:?}", resp);
                                 if resp.is_ok() {
                                     break 'main;
@@ -163,6 +165,7 @@ impl UdpMonitorTransport {
             socket,
             connection_data,
             rx: Arc::new(Mutex::new(rx)),
+            control_rx: Mutex::new(control_rx),
             on_connection,
         })
     }
@@ -238,21 +241,18 @@ impl UdpMonitorTransport {
         let communication_channel_id = self.communication_channel_id().await?;
         let req = DisconnectRequest::new(communication_channel_id, self.control_endpoint().await?).packet();
         debug!("Request disconnect for connection {}", communication_channel_id);
-        if let Err(e) = self.socket.send(&req).await {
-            whatever!("Unable to send request {:?}", e);
-        }
-
-        let mut resp = vec![0; 100];
-        self.socket.recv(&mut resp).await.expect("Unable to get response");
-        let mut resp_cursor = Cursor::new(resp.as_slice());
+        let resp = control_req(&self.socket, &self.control_rx, &req, |resp| match resp {
+            TunnelingResponse::DisconnectResponse(resp) => Some(resp),
+            _ => None,
+        });
 
-        match DisconnectResponse::from_packet(&mut resp_cursor) {
-            Ok(resp) => {
-                debug!("Disconnect response status {}", resp.status);
-                Ok(resp.status)
-            }
+        let resp = match resp.await {
+            Ok(resp) => resp,
             Err(e) => whatever!("Unable to request disconnection for id {}, {:?}", communication_channel_id, e),
-        }
+        };
+        debug!("Disconnect response status {}", resp.status);
+        *self.connection_data.lock().await = None;
+        Ok(resp.status)
     }
 }
 
-- 
2.43.0


From d6fef459d22fa0787d24f7629e10d8fe310dd53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:18 +0000
Subject: [PATCH 30/38] fix: unrelated bus traffic does not extend the timeout
 of a read or write

---
 src/transport/udp.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index ebc351d..60b3a04 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -560,9 +560,10 @@ impl UdpClient {
 
         let transport = self.transport.lock().await;
         transport.tunnel_req(req.packet()).await?;
+        let deadline = Instant::now() + self.get_read_timeout();
         let mut rx = transport.rx.lock().await;
         loop {
-            match timeout(self.get_read_timeout(), rx.recv()).await {
+            match timeout_at(deadline, rx.recv()).await {
                 Ok(Some(cemi)) if cemi.msg_code == CEMIMessageCode::LDataCon as u8 => {
                     let data_con = LDataCon::from_cemi(cemi);
                     debug!("Parsed confirmation cEMI {:?}", data_con);
@@ -595,9 +596,10 @@ impl UdpClient {
         let transport = self.transport.lock().await;
         transport.tunnel_req(req.packet()).await?;
         debug!("Write request sent to bus");
+        let deadline = Instant::now() + self.get_write_timeout();
         let mut rx = transport.rx.lock().await;
         loop {
-            match timeout(self.get_write_timeout(), rx.recv()).await {
+            match timeout_at(deadline, rx.recv()).await {
                 Ok(Some(cemi)) if cemi.msg_code == CEMIMessageCode::LDataCon as u8 => {
                     let data_con = LDataCon::from_cemi(cemi);
                     debug!("Parsed confirmation cEMI {:?}", data_con);
-- 
2.43.0


From 2213663269b4ea90e5693dcef29ccee91522e29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:18 +0000
Subject: [PATCH 31/38] fix: a write is confirmed by the confirmation of its
 own telegram only

---
 src/transport/udp.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 60b3a04..fcb2ae0 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -588,6 +588,7 @@ impl UdpClient {
 
     pub async fn write_group_address_value(&self, addr: KnxAddress, value: Vec<u8>, small: bool) -> TransportResult<()> {
         debug!("Write {:?} to {:?}", value, addr);
+        let expected_addr = addr.to_u16();
         let apdu = APDU::group_value_write(value, small);
         let tpdu = TPDU::t_data_group(apdu);
         let req = LDataReqMessage::new(addr, tpdu);
@@ -603,9 +604,14 @@ impl UdpClient {
                 Ok(Some(cemi)) if cemi.msg_code == CEMIMessageCode::LDataCon as u8 => {
                     let data_con = LDataCon::from_cemi(cemi);
                     debug!("Parsed confirmation cEMI {:?}", data_con);
-                    return Ok(());
+                    match data_con {
+                        Ok(data_con) if data_con.l_data.dest != expected_addr => continue,
+                        Ok(data_con) if !data_con.confirm => whatever!("Write request was not confirmed"),
+                        Ok(_) => return Ok(()),
+                        Err(e) => warn!("Invalid confirmation {:?}", e),
+                    }
                 }
-                Ok(Some(cemi)) => whatever!("Unknown cEMI message code {:?}", cemi.msg_code),
+                Ok(Some(cemi)) => debug!("Ignore cEMI message code {:?}", cemi.msg_code),
                 Ok(None) => whatever!("No more data will be received from client"),
                 Err(_) => whatever!("Write request timed out"),
             }
-- 
2.43.0


From 80da38c74e4d28cbc2065a27c0863509c6d120a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:19 +0000
Subject: [PATCH 32/38] fix: messages received before a request do not answer
 it

---
 src/transport/udp.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index fcb2ae0..657e8a5 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -559,9 +559,10 @@ impl UdpClient {
         debug!("LDataReq {:?}", req);
 
         let transport = self.transport.lock().await;
+        let mut rx = transport.rx.lock().await;
+        while rx.try_recv().is_ok() {} // Discard what was received before this request
         transport.tunnel_req(req.packet()).await?;
         let deadline = Instant::now() + self.get_read_timeout();
-        let mut rx = transport.rx.lock().await;
         loop {
             match timeout_at(deadline, rx.recv()).await {
                 Ok(Some(cemi)) if cemi.msg_code == CEMIMessageCode::LDataCon as u8 => {
@@ -595,10 +596,11 @@ impl UdpClient {
         debug!("LDataReq {:?}", req);
 
         let transport = self.transport.lock().await;
+        let mut rx = transport.rx.lock().await;
+        while rx.try_recv().is_ok() {} // Discard what was received before this request
         transport.tunnel_req(req.packet()).await?;
         debug!("Write request sent to bus");
         let deadline = Instant::now() + self.get_write_timeout();
-        let mut rx = transport.rx.lock().await;
         loop {
             match timeout_at(deadline, rx.recv()).await {
                 Ok(Some(cemi)) if cemi.msg_code == CEMIMessageCode::LDataCon as u8 => {
-- 
2.43.0


From eefd88393c17979d854f74a3874b3f9b802b61e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:19 +0000
Subject: [PATCH 33/38] fix: a read is answered by a value of its group address
 only

---
 src/packets/emi.rs   |  2 ++
 src/transport/udp.rs | 12 ++++++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/packets/emi.rs b/src/packets/emi.rs
index 2115cf4..c738bce 100644
--- a/src/packets/emi.rs
+++ b/src/packets/emi.rs
@@ -69,6 +69,7 @@ pub struct LData {
 pub struct LDataInd {
     pub cemi: CEMI,
     pub l_data: LData,
+    pub apci: u16,
     pub value: Vec<u8>,
 }
 
@@ -133,6 +134,7 @@ impl LDataInd {
                 system_broadcast,
                 ack_request,
             },
+            apci,
             value,
         })
     }
diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 657e8a5..c51ac1a 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -570,9 +570,17 @@ impl UdpClient {
                     debug!("Parsed confirmation cEMI {:?}", data_con);
                 }
                 Ok(Some(cemi)) if cemi.msg_code == CEMIMessageCode::LDataInd as u8 => {
-                    let data_ind = LDataInd::from_cemi(cemi)?;
+                    let data_ind = match LDataInd::from_cemi(cemi) {
+                        Ok(data_ind) => data_ind,
+                        Err(e) => {
+                            warn!("Invalid indication {:?}", e);
+                            continue;
+                        }
+                    };
                     debug!("Parsed indication cEMI {:?}", data_ind);
-                    if data_ind.l_data.dest == expected_addr {
+                    // Only group value response (1) and write (2) carry the value
+                    //
+                    if data_ind.l_data.dest == expected_addr && (data_ind.apci == 1 || data_ind.apci == 2) {
                         return Ok(data_ind.value);
                     }
                 }
-- 
2.43.0


From d20352df6d01aca630c1ff41f7076e7278504c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:20 +0000
Subject: [PATCH 34/38] fix: reject values that do not fit in a telegram
 instead of sending a wrong length

---
 src/transport/udp.rs         | 3 +++
 src/transport/udp_monitor.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index c51ac1a..d261c95 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -598,6 +598,9 @@ impl UdpClient {
     pub async fn write_group_address_value(&self, addr: KnxAddress, value: Vec<u8>, small: bool) -> TransportResult<()> {
         debug!("Write {:?} to {:?}", value, addr);
         let expected_addr = addr.to_u16();
+        if !small && value.len() > 253 {
+            whatever!("Value of {} bytes does not fit in a telegram", value.len());
+        }
         let apdu = APDU::group_value_write(value, small);
         let tpdu = TPDU::t_data_group(apdu);
         let req = LDataReqMessage::new(addr, tpdu);
diff --git a/src/transport/udp_monitor.rs b/src/transport/udp_monitor.rs
index 660b636..0d19817 100644
--- a/src/transport/udp_monitor.rs
+++ b/src/transport/udp_monitor.rs
@@ -348,6 +348,9 @@ impl UdpMonitor {
 
     pub async fn write_group_address_value(&self, addr: KnxAddress, value: Vec<u8>, small: bool) -> TransportResult<()> {
         debug!("Write {:?} to {:?}", value, addr);
+        if !small && value.len() > 253 {
+            whatever!("Value of {} bytes does not fit in a telegram", value.len());
+        }
         let apdu = APDU::group_value_write(value, small);
         let tpdu = TPDU::t_data_group(apdu);
         let req = LDataReqMessage::new(addr, tpdu);
-- 
2.43.0


From 8efc787e95000c17d983c9fb6903139f17a3b5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:20 +0000
Subject: [PATCH 35/38] fix: search ends after its timeout and skips malformed
 responses

---
 src/transport/udp.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index d261c95..954ec5d 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -298,26 +298,32 @@ impl UdpTransport {
             whatever!("Unable to send request {:?}", e);
         }
 
-        let mut buffer = vec![0; 100];
+        let mut buffer = vec![0; 1024];
         let mut responses = Vec::new();
+        let timeout = sleep(timeout);
+        tokio::pin!(timeout);
 
         loop {
             select! {
                 n_bytes = socket.recv(&mut buffer) => {
                     match n_bytes {
-                        Ok(_n_bytes) => {
-                            debug!("Search response {:0x?}", buffer);
-                            let mut cursor = Cursor::new(buffer.as_slice());
-                            let resp = SearchResponse::from_packet(&mut cursor)?;
-                            debug!("Parsed search response {:0x?}", resp);
-                            responses.push(resp);
+                        Ok(n_bytes) => {
+                            debug!("Search response {:0x?}", &buffer[..n_bytes]);
+                            let mut cursor = Cursor::new(&buffer[..n_bytes]);
+                            match SearchResponse::from_packet(&mut cursor) {
+                                Ok(resp) => {
+                                    debug!("Parsed search response {:0x?}", resp);
+                                    responses.push(resp);
+                                },
+                                Err(e) => warn!("Invalid search response {:?}", e),
+                            }
                         },
                         Err(e) => {
                             whatever!("Unable to get response {:?}", e);
                         }
                     }
                 },
-                _ = tokio::time::sleep(timeout) => {
+                _ = &mut timeout => {
                      debug!("Search timeout received {} responses", responses.len());
                      break;
                 }
-- 
2.43.0


From 05c0216fca04f477d80cd997a312e385c5e6fd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:34 +0000
Subject: [PATCH 36/38] fix: heart beats no longer drop a frame whose
 acknowledgement is being sent

---
 src/transport/udp.rs         | 7 ++++++-
 src/transport/udp_monitor.rs | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 954ec5d..e084a36 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -151,9 +151,14 @@ impl UdpTransport {
                         *connection_data = Some(ConnectionData::from_connection_response(connection));
                     }
 
+                    // Survives the heart beats, otherwise a request whose ack is being sent would be lost
+                    //
+                    let recv = handle_recv_from_knx_device(socket.clone(), from_knx_tx.clone(), control_tx.clone());
+                    tokio::pin!(recv);
+
                     'recv: loop {
                         tokio::select! {
-                            resp = handle_recv_from_knx_device(socket.clone(), from_knx_tx.clone(), control_tx.clone()) => {
+                            resp = &mut recv => {
                                 info!("Recieve messages from knx device task exited with result {:?}", resp);
                                 if resp.is_ok() {
                                     debug!("Exit from reconnection loop");
diff --git a/src/transport/udp_monitor.rs b/src/transport/udp_monitor.rs
index 0d19817..d9516dd 100644
--- a/src/transport/udp_monitor.rs
+++ b/src/transport/udp_monitor.rs
@@ -121,9 +121,14 @@ impl UdpMonitorTransport {
                         *on_connection = active_on_connection;
                     }
 
+                    // Survives the heart beats, otherwise a request whose ack is being sent would be lost
+                    //
+                    let recv = handle_recv_from_knx_device(socket.clone(), from_knx_tx.clone(), control_tx.clone());
+                    tokio::pin!(recv);
+
                     loop {
                         tokio::select! {
-                            resp = handle_recv_from_knx_device(socket.clone(), from_knx_tx.clone(), control_tx.clone()) => {
+                            resp = &mut recv => {
                                 info!("Recieve messages from knx device task exited with result {:?}", resp);
                                 if resp.is_ok() {
                                     break 'main;
-- 
2.43.0


From 31193b9c16368b00a9ea58e2739c751da7f3566c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:42 +0000
Subject: [PATCH 37/38] fix: decoded 32 bit unsigned values carry the code of
 their type (12.x)

---
 src/dp_types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dp_types.rs b/src/dp_types.rs
index ab85175..43895fa 100644
--- a/src/dp_types.rs
+++ b/src/dp_types.rs
@@ -365,7 +365,7 @@ impl Pdt<u32> for PdtKnxULong {
         let mut reader = Cursor::new(b);
         let value = reader.read_u32::<BigEndian>().with_whatever_context(|e| "Unable to get 4 bytes {e}")?;
         Ok(Self {
-            code: "8.x".to_string(),
+            code: "12.x".to_string(),
             value,
         })
     }
-- 
2.43.0


From aebc9becb775a1c451212b6279f4609edb2ab536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:42 +0000
Subject: [PATCH 38/38] fix: decoded control values carry the code of their
 type (3.x)

---
 src/dp_types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dp_types.rs b/src/dp_types.rs
index 43895fa..91f8cc0 100644
--- a/src/dp_types.rs
+++ b/src/dp_types.rs
@@ -448,7 +448,7 @@ impl Pdt<u8> for PdtKnxB1U3 {
     {
         let value = b.get(0).with_whatever_context(|| "Should have at least one byte")?;
         Ok(Self {
-            code: "0.x".to_string(),
+            code: "3.x".to_string(),
             bit: (value & 8) > 0,
             step: value & 0b111,
         })
-- 
2.43.0

