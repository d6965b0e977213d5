From 012c60fb89a517cb1026a5a01793f05ed6717a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:27 +0000
Subject: [PATCH 01/17] fix: encode the I/O address capability of a CardBus I/O
 range

The 32-bit form lost its capability bit (it decoded back as 16-bit) and the
unknown form hit unreachable!().
---
 src/header.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/header.rs b/src/header.rs
index 86721a8..50719e0 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -764,14 +764,24 @@ impl From<IoAccessAddressRange > for [[u16;2]; 2] {
             },
             IoAccessAddressRange::Addr32Bit { base, limit } => {
                 let base = base.to_le_bytes();
-                let base_upper = u16::from_le_bytes([base[0] & !0b11, base[1]]);
+                let base_upper = u16::from_le_bytes([base[0] & !0b11 | 0b01, base[1]]);
                 let base_lower = u16::from_le_bytes([base[2], base[3]]);
                 let limit = limit.to_le_bytes();
                 let limit_upper = u16::from_le_bytes([limit[0], limit[1]]);
                 let limit_lower = u16::from_le_bytes([limit[2], limit[3]]);
                 [[base_upper, base_lower], [limit_upper, limit_lower]]
             },
-            _ => unreachable!(),
+            IoAccessAddressRange::Unknown {
+                io_address_capability,
+                base_lower,
+                base_upper,
+                limit_lower,
+                limit_upper,
+            } => {
+                let capability = io_address_capability as u16 & IoAccessAddressRange::IO_CAP_MASK;
+                let base_lower = base_lower & !IoAccessAddressRange::IO_CAP_MASK;
+                [[base_lower | capability, base_upper], [limit_lower, limit_upper]]
+            },
         }
     }
 }
-- 
2.43.0


From 1086fd53dd998e66902d415f908ccbb9c6bec248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:27 +0000
Subject: [PATCH 02/17] fix: do not index past the end when collecting a 64-bit
 BAR into the last slot

---
 src/header/bar.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/header/bar.rs b/src/header/bar.rs
index 3bdc60f..8c5f642 100644
--- a/src/header/bar.rs
+++ b/src/header/bar.rs
@@ -98,7 +98,9 @@ impl<const N: usize> FromIterator<BaseAddress> for [u32; N] {
                 },
                 BaseAddressType::MemorySpace64 { prefetchable, base_address, } => {
                     dwords[i] = (base_address as u32) & !0b1111 | 0b100 | ((prefetchable as u32) << 3);
-                    dwords[i + 1] = (base_address >> 32) as u32;
+                    if let Some(upper) = dwords.get_mut(i + 1) {
+                        *upper = (base_address >> 32) as u32;
+                    }
                 },
                 BaseAddressType::IoSpace { base_address, } => {
                     dwords[i] = base_address & !0b11 | 0b01;
-- 
2.43.0


From 5c765e28f6ecbe70233f1dfb34da599245554575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:27 +0000
Subject: [PATCH 03/17] fix: report a truncated type 1 second DW of Enhanced
 Allocation as such

---
 src/capabilities/enhanced_allocation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/capabilities/enhanced_allocation.rs b/src/capabilities/enhanced_allocation.rs
index 92ed617..bbe42ea 100644
--- a/src/capabilities/enhanced_allocation.rs
+++ b/src/capabilities/enhanced_allocation.rs
@@ -88,7 +88,7 @@ impl<'a> EnhancedAllocation<'a> {
                         entries: EnhancedAllocationEntries::new(slice, num_entries),
                     })
                 } else {
-                    Err(EnhancedAllocationError::NumEntries)
+                    Err(EnhancedAllocationError::Type1SecondDw)
                 }
             } else {
                 Ok(Self {
-- 
2.43.0


From 85457900562f252b64e1f8baa54e9de52790e12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:27 +0000
Subject: [PATCH 04/17] fix: end the capabilities list after a truncated
 capability header

The pointer was left in place, so the iterator returned the same error forever
(e.g. for a configuration space that reads as all ones).
---
 src/capabilities.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/capabilities.rs b/src/capabilities.rs
index cb57c93..814cff9 100644
--- a/src/capabilities.rs
+++ b/src/capabilities.rs
@@ -369,6 +369,7 @@ fn parse_cap<'a>(bytes: &'a [u8], pointer: &mut u8, header: &'a Header) -> Capab
         *pointer = *next;
         (*id, rest)
     } else {
+        *pointer = 0;
         return Err(CapabilityError::Header { ptr });
     };
     use CapabilityKind as Kind;
-- 
2.43.0


From 5298861196291fb967a835ed1c1c3045341600c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:27 +0000
Subject: [PATCH 05/17] fix: end the iteration of cyclic capability lists

A list whose next pointer leads back into the list was iterated forever.
---
 src/capabilities.rs          | 11 ++++++++++-
 src/extended_capabilities.rs | 10 +++++++++-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/capabilities.rs b/src/capabilities.rs
index 814cff9..80c425f 100644
--- a/src/capabilities.rs
+++ b/src/capabilities.rs
@@ -342,16 +342,25 @@ pub struct Capabilities<'a> {
     data: &'a [u8],
     header: &'a Header,
     pointer: u8,
+    /// Number of list items left, a longer list is cyclic
+    remaining: usize,
 }
 impl<'a> Capabilities<'a> {
     pub fn new(data: &'a [u8], header: &'a Header) -> Self {
-        Self { data, header, pointer: header.capabilities_pointer }
+        Self {
+            data,
+            header,
+            pointer: header.capabilities_pointer,
+            // as many structures as fit, and one that does not
+            remaining: data.len() / Capability::HEADER_SIZE + 1,
+        }
     }
 }
 impl<'a> Iterator for Capabilities<'a> {
     type Item = CapabilityResult<'a>;
 
     fn next(&mut self) -> Option<Self::Item> {
+        self.remaining = self.remaining.checked_sub(1)?;
         // Stop iterating if next pointer is null
         (self.pointer != 0).then(|| parse_cap(self.data, &mut self.pointer, self.header))
     }
diff --git a/src/extended_capabilities.rs b/src/extended_capabilities.rs
index 2d2f0fe..916c9fb 100644
--- a/src/extended_capabilities.rs
+++ b/src/extended_capabilities.rs
@@ -186,10 +186,17 @@ pub struct ExtendedCapabilities<'a> {
     ecs: &'a [u8],
     /// PCI Configuration Space offset
     next_capability_offset: u16,
+    /// Number of list items left, a longer list is cyclic
+    remaining: usize,
 }
 impl<'a> ExtendedCapabilities<'a> {
     pub fn new(ecs: &'a [u8]) -> Self {
-        Self { ecs, next_capability_offset: ECS_OFFSET as u16 }
+        Self {
+            ecs,
+            next_capability_offset: ECS_OFFSET as u16,
+            // as many structures as fit, and one that does not
+            remaining: ecs.len() / ExtendedCapability::HEADER_SIZE + 1,
+        }
     }
 }
 impl<'a> Iterator for ExtendedCapabilities<'a> {
@@ -199,6 +206,7 @@ impl<'a> Iterator for ExtendedCapabilities<'a> {
         if self.next_capability_offset == 0 {
             return None;
         }
+        self.remaining = self.remaining.checked_sub(1)?;
         match parse_ecap(self.ecs, &mut self.next_capability_offset) {
             Err(ExtendedCapabilityError::EmptyHeader { .. }) => None,
             v => Some(v),
-- 
2.43.0


From 643008466b69c05052c352190d3082b012f2ee13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:27 +0000
Subject: [PATCH 06/17] fix: decode extended capabilities from their own offset

The kinds that are parsed together with their header were always parsed from the
start of the extended configuration space.
---
 src/extended_capabilities.rs | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/extended_capabilities.rs b/src/extended_capabilities.rs
index 916c9fb..b2710b9 100644
--- a/src/extended_capabilities.rs
+++ b/src/extended_capabilities.rs
@@ -290,6 +290,8 @@ fn parse_ecap<'a>(
     let (id, version, next_cap_offset) = P3::<_, 16, 4, 12>(*dword).lsb_into();
     *next_capability_offset = next_cap_offset;
 
+    // Extended capability with its header
+    let ecap_bytes = &bytes[ecs_offset..];
     let ecap_data = &bytes[ecap_data_offset..];
 
     use ExtendedCapabilityKind as Kind;
@@ -324,7 +326,7 @@ fn parse_ecap<'a>(
             .map(Kind::RootComplexEventCollectorEndpointAssociation)
             .context(DataSnafu { offset })?,
         // MFVC use data with PCI Express Extended Capability Header for simpler calculations
-        0x0008 => bytes
+        0x0008 => ecap_bytes
             .try_into()
             .map(Kind::MultifunctionVirtualChannel)
             .context(MultifunctionVirtualChannelSnafu { offset })?,
@@ -332,7 +334,7 @@ fn parse_ecap<'a>(
             .try_into()
             .map(Kind::VirtualChannelMfvcPresent)
             .context(DataSnafu { offset })?,
-        0x000A => bytes
+        0x000A => ecap_bytes
             .try_into()
             .map(Kind::RootComplexRegisterBlockHeader)
             .context(DataSnafu { offset })?,
@@ -340,7 +342,7 @@ fn parse_ecap<'a>(
             .try_into()
             .map(Kind::VendorSpecificExtendedCapability)
             .context(DataSnafu { offset })?,
-        0x000C => bytes
+        0x000C => ecap_bytes
             .try_into()
             .map(Kind::ConfigurationAccessCorrelation)
             .context(DataSnafu { offset })?,
@@ -361,7 +363,7 @@ fn parse_ecap<'a>(
             .map(Kind::SingleRootIoVirtualization)
             .context(DataSnafu { offset })?,
         0x0011 => Kind::MultiRootIoVirtualization(MultiRootIoVirtualization),
-        0x0012 => bytes
+        0x0012 => ecap_bytes
             .try_into()
             .map(Kind::Multicast)
             .context(DataSnafu { offset })?,
@@ -370,11 +372,11 @@ fn parse_ecap<'a>(
             .map(Kind::PageRequestInterface)
             .context(DataSnafu { offset })?,
         0x0014 => Kind::ReservedForAmd(ReservedForAmd),
-        0x0015 => bytes
+        0x0015 => ecap_bytes
             .try_into()
             .map(Kind::ResizableBar)
             .context(ResizableBarSnafu { offset })?,
-        0x0016 => bytes
+        0x0016 => ecap_bytes
             .try_into()
             .map(Kind::DynamicPowerAllocation)
             .context(DynamicPowerAllocationSnafu { offset })?,
@@ -390,7 +392,7 @@ fn parse_ecap<'a>(
             .try_into()
             .map(Kind::SecondaryPciExpress)
             .context(DataSnafu { offset })?,
-        0x001A => bytes
+        0x001A => ecap_bytes
             .try_into()
             .map(Kind::ProtocolMultiplexing)
             .context(ProtocolMultiplexingSnafu { offset })?,
@@ -398,7 +400,7 @@ fn parse_ecap<'a>(
             .try_into()
             .map(Kind::ProcessAddressSpaceId)
             .context(DataSnafu { offset })?,
-        0x001C => bytes
+        0x001C => ecap_bytes
             .try_into()
             .map(Kind::LnRequester)
             .context(DataSnafu { offset })?,
@@ -414,23 +416,23 @@ fn parse_ecap<'a>(
             .try_into()
             .map(Kind::PrecisionTimeMeasurement)
             .context(DataSnafu { offset })?,
-        0x0020 => bytes
+        0x0020 => ecap_bytes
             .try_into()
             .map(Kind::PciExpressOverMphy)
             .context(DataSnafu { offset })?,
-        0x0021 => bytes
+        0x0021 => ecap_bytes
             .try_into()
             .map(Kind::FrsQueuing)
             .context(DataSnafu { offset })?,
-        0x0022 => bytes
+        0x0022 => ecap_bytes
             .try_into()
             .map(Kind::ReadinessTimeReporting)
             .context(DataSnafu { offset })?,
-        0x0023 => bytes
+        0x0023 => ecap_bytes
             .try_into()
             .map(Kind::DesignatedVendorSpecificExtendedCapability)
             .context(DesignatedVendorSpecificExtendedCapabilitySnafu { offset })?,
-        0x0024 => bytes
+        0x0024 => ecap_bytes
             .try_into()
             .map(Kind::VfResizableBar)
             .context(VfResizableBarSnafu { offset })?,
-- 
2.43.0


From c55e8769c1eae834de6b7d9e305f780628186ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:27 +0000
Subject: [PATCH 07/17] fix: PCI-X maximum cumulative read size in bytes

One ADQ is 128 bytes: the encodings run from 1 KB to 128 KB.
---
 src/capabilities/pci_x.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/capabilities/pci_x.rs b/src/capabilities/pci_x.rs
index c5cac1b..0d8db82 100644
--- a/src/capabilities/pci_x.rs
+++ b/src/capabilities/pci_x.rs
@@ -398,7 +398,7 @@ impl MaximumCumulativeReadSize {
         1 << (self.0 + 3)
     }
     pub fn bytes(&self) -> usize {
-        1 << self.0
+        self.adqs() * 128
     }
 }
 
-- 
2.43.0


From 3729ac4f05ba7c96bce83e711609330911530a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:27 +0000
Subject: [PATCH 08/17] fix: completion timeout range C is 250 ms to 4 s

---
 src/capabilities/pci_express.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/capabilities/pci_express.rs b/src/capabilities/pci_express.rs
index 0bab228..ccb9f9d 100644
--- a/src/capabilities/pci_express.rs
+++ b/src/capabilities/pci_express.rs
@@ -1637,7 +1637,7 @@ pub enum CompletionTimeoutRanges {
 impl CompletionTimeoutRanges {
     pub const A: Range<f64> = 50e-6..10e-3;
     pub const B: Range<f64> = 10e-3..250e-3;
-    pub const C: Range<f64> = 250e-6..4.0;
+    pub const C: Range<f64> = 250e-3..4.0;
     pub const D: Range<f64> = 4.0..64.0;
 }
 impl From<u8> for CompletionTimeoutRanges {
-- 
2.43.0


From ade4a3f34e413b48ec9a8140ced47ad33b0d8765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:27 +0000
Subject: [PATCH 09/17] fix: ACS egress control vector size

The size field is 8 bits wide (15:8), and the vector takes as many DWORDs as are
needed to hold that many bits.
---
 src/extended_capabilities/access_control_services.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/extended_capabilities/access_control_services.rs b/src/extended_capabilities/access_control_services.rs
index d7bfed8..49110fa 100644
--- a/src/extended_capabilities/access_control_services.rs
+++ b/src/extended_capabilities/access_control_services.rs
@@ -65,7 +65,8 @@ pub struct AccessControlServices<'a> {
 impl<'a> AccessControlServices<'a> {
     pub fn egress_control_vectors(&self) -> EgressControlVectors<'a> {
         let size = self.acs_capability.egress_control_vector_size as usize;
-        let end = size / (u32::BITS as usize) * ECV_BYTES;
+        let bits = u32::BITS as usize;
+        let end = (size + bits - 1) / bits * ECV_BYTES;
         EgressControlVectors::new(self.data.get(..end).unwrap_or_default(), size)
     }
 }
@@ -124,7 +125,7 @@ impl From<u16> for AcsCapability {
             acs_direct_translated_p2p,
             (),
             egress_control_vector_size,
-        )) = P9::<_, 1, 1, 1, 1, 1, 1, 1, 1, 7>(word).into();
+        )) = P9::<_, 1, 1, 1, 1, 1, 1, 1, 1, 8>(word).into();
         Self {
             acs_source_validation,
             acs_translation_blocking,
-- 
2.43.0


From 9c519bda88523a587ee57887f1ce8030625f6a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:27 +0000
Subject: [PATCH 10/17] fix: read the AER TLP prefix log at its offset (38h)

The registers common to all device types were skipped twice.
---
 src/extended_capabilities/advanced_error_reporting.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extended_capabilities/advanced_error_reporting.rs b/src/extended_capabilities/advanced_error_reporting.rs
index 6322fe8..e09f010 100644
--- a/src/extended_capabilities/advanced_error_reporting.rs
+++ b/src/extended_capabilities/advanced_error_reporting.rs
@@ -267,7 +267,7 @@ impl TryFrom<&[u8]> for AdvancedErrorReporting {
             } = P2(slice)
                 .try_into()
                 .map_err(|_| AdvancedErrorReportingError::TlpPrefixLog)?;
-            let _: [u8; Self::RP_AND_RCEC_SIZE] = _rp_and_rcec;
+            let _: [u8; Self::RP_AND_RCEC_SIZE - Self::COMMON_SIZE] = _rp_and_rcec;
             let Le(tlp_prefix_log) = From::<[u8; Self::TLP_PREFIX_LOG_SIZE]>::from(tlp_prefix_log);
             Some(TlpPrefixLog(tlp_prefix_log))
         } else {
-- 
2.43.0


From 932cc8082c2e083417d282d5cf2714cf48f504d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:27 +0000
Subject: [PATCH 11/17] fix: encode the LTR max latency scale where it is
 decoded from (12:10)

---
 src/extended_capabilities/l1_pm_substates.rs             | 4 +++-
 src/extended_capabilities/latency_tolerance_reporting.rs | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/extended_capabilities/l1_pm_substates.rs b/src/extended_capabilities/l1_pm_substates.rs
index c724ba5..afed6d0 100644
--- a/src/extended_capabilities/l1_pm_substates.rs
+++ b/src/extended_capabilities/l1_pm_substates.rs
@@ -255,7 +255,9 @@ impl From<L1PmSubstatesControl1> for u32 {
             | u8::from(data.pci_pm_l1_1_enable) << 1
             | u8::from(data.aspm_l1_2_enable) << 2
             | u8::from(data.aspm_l1_1_enable) << 3;
-        let [b2, b3] = u16::from(data.ltr_l1_2_threshold).to_le_bytes();
+        // The scale is in bits 31:29, apart from the value in bits 25:16
+        let MaxLatency { value, scale } = data.ltr_l1_2_threshold;
+        let [b2, b3] = (u16::from(scale) << 13 | value).to_le_bytes();
         u32::from_le_bytes([b0, data.common_mode_restore_time, b2, b3])
     }
 }
diff --git a/src/extended_capabilities/latency_tolerance_reporting.rs b/src/extended_capabilities/latency_tolerance_reporting.rs
index 595ab9c..47277f0 100644
--- a/src/extended_capabilities/latency_tolerance_reporting.rs
+++ b/src/extended_capabilities/latency_tolerance_reporting.rs
@@ -86,6 +86,6 @@ impl From<u16> for MaxLatency {
 
 impl From<MaxLatency> for u16 {
     fn from(data: MaxLatency) -> Self {
-        (data.scale as u16) << 13 | data.value
+        (data.scale as u16) << 10 | data.value
     }
 }
-- 
2.43.0


From 9a169d4184d400f03e5b76184607c75529018839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:27 +0000
Subject: [PATCH 12/17] fix: do not panic on truncated lane equalization
 control registers

---
 src/extended_capabilities/secondary_pci_express.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extended_capabilities/secondary_pci_express.rs b/src/extended_capabilities/secondary_pci_express.rs
index 0e428b2..146a2b0 100644
--- a/src/extended_capabilities/secondary_pci_express.rs
+++ b/src/extended_capabilities/secondary_pci_express.rs
@@ -79,7 +79,7 @@ impl<'a> SecondaryPciExpress<'a> {
     ) -> EqualizationControlLanes<'a> {
         // One Lane Equalization Control 2 bytes width
         let end = (u8::from(link_width) as usize) * 2;
-        EqualizationControlLanes::new(&self.ecl_data[..end])
+        EqualizationControlLanes::new(&self.ecl_data[..end.min(self.ecl_data.len())])
     }
 }
 impl<'a> TryFrom<&'a [u8]> for SecondaryPciExpress<'a> {
-- 
2.43.0


From 92c3352c673f0cbc3c7461ecd851379d83b17d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:27 +0000
Subject: [PATCH 13/17] fix: do not panic on absent or truncated VC and port
 arbitration tables

---
 src/extended_capabilities/virtual_channel.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/extended_capabilities/virtual_channel.rs b/src/extended_capabilities/virtual_channel.rs
index abf4c87..6822f81 100644
--- a/src/extended_capabilities/virtual_channel.rs
+++ b/src/extended_capabilities/virtual_channel.rs
@@ -118,10 +118,11 @@ impl<'a> VirtualChannel<'a> {
             .port_vc_control
             .vc_arbitration_select
             .vc_arbitration_table_length();
-        let start = offset as usize * DQWORD - ECH_BYTES;
+        // Zero offset: the table is not present
+        let start = (offset as usize * DQWORD).saturating_sub(ECH_BYTES);
         // VC Arbitration Table entry length is 4 bits, so there are 2 entries in one byte
         let end = start + entries_number / 2;
-        let data = &self.data[start..end];
+        let data = self.data.get(start..end).filter(|_| offset != 0).unwrap_or_default();
         VcArbitrationTable::new(data)
     }
     pub fn port_arbitration_table(
@@ -137,9 +138,10 @@ impl<'a> VirtualChannel<'a> {
             .vc_resource_control
             .port_arbitration_select
             .port_arbitration_table_length();
-        let start = offset as usize * DQWORD - ECH_BYTES;
+        // Zero offset: the table is not present
+        let start = (offset as usize * DQWORD).saturating_sub(ECH_BYTES);
         let end = start + entry_size_bits * entries_number / 8;
-        let data = &self.data[start..end];
+        let data = self.data.get(start..end).filter(|_| offset != 0).unwrap_or_default();
         PortArbitrationTable::new(data, entry_size_bits)
     }
 }
-- 
2.43.0


From a17c446035ff88eb37ed54470204aaa336b2b553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:21 +0000
Subject: [PATCH 14/17] fix: the extended gameport interface code is 10h

---
 src/header/class_code.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/header/class_code.rs b/src/header/class_code.rs
index 0675c07..2154e48 100644
--- a/src/header/class_code.rs
+++ b/src/header/class_code.rs
@@ -159,7 +159,7 @@ impl ClassCode {
             (0x09, 0x02,    _) => ("Input device controller", Some("Mouse controller"), None),
             (0x09, 0x03,    _) => ("Input device controller", Some("Scanner controller"), None),
             (0x09, 0x04, 0x00) => ("Input device controller", Some("Gameport controller"), Some("Generic")),
-            (0x09, 0x04, 0x01) => ("Input device controller", Some("Gameport controller"), Some("Extended")),
+            (0x09, 0x04, 0x10) => ("Input device controller", Some("Gameport controller"), Some("Extended")),
             (0x09, 0x04,    _) => ("Input device controller", Some("Gameport controller"), None),
             (0x09, 0x80,    _) => ("Input device controller", Some("Input device controller"), None),
             (0x09,    _,    _) => ("Input device controller", None, None),
-- 
2.43.0


From 426c68cc18d837d87f48dcf180bc4afa53b32fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:50 +0000
Subject: [PATCH 15/17] verification hook: read access to lane equalization
 control fields (cfg pcics_verif)

---
 .../secondary_pci_express.rs                  | 24 +++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/extended_capabilities/secondary_pci_express.rs b/src/extended_capabilities/secondary_pci_express.rs
index 146a2b0..a4aa746 100644
--- a/src/extended_capabilities/secondary_pci_express.rs
+++ b/src/extended_capabilities/secondary_pci_express.rs
@@ -185,6 +185,30 @@ pub struct LaneEqualizationControl {
     upstream_port_receiver_preset_hint: ReceiverPresetHint,
 }
 
+// Read access to the private fields for verification builds only
+#[allow(unexpected_cfgs)]
+const _: () = {
+    #[cfg(pcics_verif)]
+    impl LaneEqualizationControl {
+        /// Downstream preset and hint, upstream preset and hint
+        pub fn verif_fields(
+            &self,
+        ) -> (
+            &TransmitterPreset,
+            &ReceiverPresetHint,
+            &TransmitterPreset,
+            &ReceiverPresetHint,
+        ) {
+            (
+                &self.downstream_port_transmitter_preset,
+                &self.downstream_port_receiver_preset_hint,
+                &self.upstream_port_transmitter_preset,
+                &self.upstream_port_receiver_preset_hint,
+            )
+        }
+    }
+};
+
 impl From<u16> for LaneEqualizationControl {
     fn from(word: u16) -> Self {
         let Lsb((
-- 
2.43.0


From bda92994c5538a7d3893cf14da63a0582c4b2790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:03 +0000
Subject: [PATCH 16/17] fix: port arbitration tables that differ in a partly
 read byte are not equal

---
 src/extended_capabilities/virtual_channel.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/extended_capabilities/virtual_channel.rs b/src/extended_capabilities/virtual_channel.rs
index 6822f81..b24cd0b 100644
--- a/src/extended_capabilities/virtual_channel.rs
+++ b/src/extended_capabilities/virtual_channel.rs
@@ -426,6 +426,7 @@ impl<'a> PartialEq for PortArbitrationTable<'a> {
         self.data.clone().eq(other.data.clone())
             && self.entry_size_bits == other.entry_size_bits
             && self.shift == other.shift
+            && self.byte == other.byte
     }
 }
 impl<'a> Eq for PortArbitrationTable<'a> {}
-- 
2.43.0


From c63b09c4abac6fc2283b8f53f83776864a2811a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:36 +0000
Subject: [PATCH 17/17] fix: a truncated DPA allocation array was reported with
 one entry less than it needs

---
 src/extended_capabilities/dynamic_power_allocation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extended_capabilities/dynamic_power_allocation.rs b/src/extended_capabilities/dynamic_power_allocation.rs
index 50fc5b6..8274f95 100644
--- a/src/extended_capabilities/dynamic_power_allocation.rs
+++ b/src/extended_capabilities/dynamic_power_allocation.rs
@@ -98,7 +98,7 @@ impl<'a> TryFrom<&'a [u8]> for DynamicPowerAllocation<'a> {
         let substate_max = substate_max as usize;
         tail.get(..substate_max + 1)
             .ok_or(DynamicPowerAllocationError::DpaAllocationArray {
-                expected: substate_max,
+                expected: substate_max + 1,
                 found: tail.len(),
             })
             .map(|slice| Self {
-- 
2.43.0

