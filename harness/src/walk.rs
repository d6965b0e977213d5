//! The two capability lists: order and end of the walk, which structure an id selects, and where its bytes come from
use crate::util::*;
use pcics::capabilities::*;
use pcics::extended_capabilities as ec;
use pcics::{Capabilities, ExtendedCapabilities, Header};

fn header(ptr: u8, kind: u8, vendor: &[u8]) -> Header {
    let mut hb = [0u8; 64];
    hb[..4].copy_from_slice(vendor);
    hb[0x0e] = kind;
    hb[0x34] = ptr;
    hb[0x14] = ptr; // its place in the CardBus layout
    hb.into()
}

/// what a list item is: position, and the id its kind stands for
enum Item {
    Cap { at: u16, id: u16 },
    /// position is outside of the list's region
    BadPointer,
    /// no room for a header at the position
    NoHeader { at: u16 },
    /// structure did not decode
    Body { at: u16, id: Option<u16> },
}

fn cap_id(k: &CapabilityKind<'_>) -> u16 {
    use CapabilityKind::*;
    match k {
        NullCapability => 0,
        PowerManagementInterface(_) => 1,
        AcceleratedGraphicsPort(_) => 2,
        VitalProductData(_) => 3,
        SlotIdentification(_) => 4,
        MessageSignaledInterrups(_) => 5,
        CompactPciHotSwap(_) => 6,
        PciX(_) => 7,
        PciXBridge(_) => 7,
        Hypertransport(_) => 8,
        VendorSpecific(_) => 9,
        DebugPort(_) => 0xa,
        CompactPciResourceControl(_) => 0xb,
        PciHotPlug(_) => 0xc,
        BridgeSubsystemVendorId(_) => 0xd,
        Agp8x(_) => 0xe,
        SecureDevice(_) => 0xf,
        PciExpress(_) => 0x10,
        MsiX(_) => 0x11,
        Sata(_) => 0x12,
        AdvancedFeatures(_) => 0x13,
        EnhancedAllocation(_) => 0x14,
        FlatteningPortalBridge(_) => 0x15,
        Reserved(v) => {
            if *v > 0x15 {
                *v as u16
            } else {
                0xffff
            }
        }
    }
}
#[inline(never)]
fn step(it: &mut Capabilities<'_>) -> Option<Item> {
    use CapabilityError::*;
    Some(match it.next()? {
        Ok(c) => Item::Cap { at: c.pointer as u16, id: cap_id(&c.kind) },
        Err(e) => match e {
            Pointer => Item::BadPointer,
            Header { ptr } => Item::NoHeader { at: ptr as u16 },
            Data { ptr, .. } => Item::Body { at: ptr as u16, id: None },
            PciExpress { ptr, .. } => Item::Body { at: ptr as u16, id: Some(0x10) },
            Hypertransport { ptr, .. } => Item::Body { at: ptr as u16, id: Some(8) },
            VendorSpecific { ptr, .. } => Item::Body { at: ptr as u16, id: Some(9) },
            MessageSignaledInterrups { ptr, .. } => Item::Body { at: ptr as u16, id: Some(5) },
            PciX { ptr, .. } => Item::Body { at: ptr as u16, id: Some(7) },
            PciXBridge { ptr, .. } => Item::Body { at: ptr as u16, id: Some(7) },
            EnhancedAllocation { ptr, .. } => Item::Body { at: ptr as u16, id: Some(0x14) },
        },
    })
}

#[inline(always)]
fn check_walk(mut next: impl FnMut() -> Option<Item>, first: usize, start: usize, hdr: usize, len: usize, read: impl Fn(usize) -> (u16, usize), empty: impl Fn(usize) -> bool, most: usize) {
    let fit = len / hdr + 1;
    let (mut p, mut n) = (first, 0);
    loop {
        let bad = p < start;
        let none = !bad && (p - start > len || len - (p - start) < hdr);
        let item = next();
        let Some(item) = item else {
            ck!(p == 0 || n >= fit || (!bad && !none && empty(p - start)), "the walk goes on to the end of the list");
            if p != 0 && n >= fit {
                reach!();
            }
            if p == 0 && n > 1 {
                reach!();
            }
            ck!(next().is_none(), "an ended walk stays ended");
            return;
        };
        ck!(p != 0, "a null pointer ends the walk");
        if p == 0 {
            return;
        }
        match item {
            Item::BadPointer => {
                ck!(bad, "only positions outside of the region are rejected");
                p = 0;
                reach!();
            }
            Item::NoHeader { at } => {
                ck!(none, "only positions without room for a header are rejected");
                eq!(at as usize, p, "position in the error");
                p = 0;
                reach!();
            }
            Item::Cap { at, id } => {
                ck!(!bad && !none, "a structure needs a header in the region");
                if bad || none {
                    return;
                }
                eq!(at as usize, p, "position of the structure");
                let (i, q) = read(p - start);
                eq!(id, i, "kind of the structure");
                p = q;
                reach!();
            }
            Item::Body { at, id } => {
                ck!(!bad && !none, "a structure needs a header in the region");
                if bad || none {
                    return;
                }
                eq!(at as usize, p, "position in the error");
                let (i, q) = read(p - start);
                if let Some(id) = id {
                    eq!(id, i, "kind of the error");
                }
                p = q;
                reach!();
            }
        }
        n += 1;
        if n == most {
            reach!();
            return;
        }
        ck!(n <= len + 2, "the walk ends");
        if n > len + 2 {
            return;
        }
    }
}

/// s = capabilities pointer, header type, device dependent region
#[no_mangle]
pub fn h_walk(s: &[u8]) {
    if s.len() < 2 {
        return;
    }
    let d = &s[2..];
    let h = header(s[0], s[1], &[0, 0, 0, 0]);
    let mut it = Capabilities::new(d, &h);
    check_walk(|| step(&mut it), h.capabilities_pointer as usize, 0x40, 2, d.len(), |o| (d[o] as u16, d[o + 1] as usize), |_| false, usize::MAX);
}

/// the first steps in a region of any size, with ids that have no registers
#[no_mangle]
pub fn h_walk_far(s: &[u8]) {
    walk_far(s, 2)
}
#[no_mangle]
pub fn h_walk_far3(s: &[u8]) {
    walk_far(s, 3)
}
#[inline(always)]
fn walk_far(s: &[u8], most: usize) {
    if s.len() < 1 {
        return;
    }
    let d = &s[1..];
    let mut p = s[0] as usize;
    for _ in 0..most {
        if p < 0x40 || d.len() < 2 || p - 0x40 > d.len() - 2 {
            break;
        }
        assume(d[p - 0x40] == 0);
        p = d[p - 0x40 + 1] as usize;
    }
    let h = header(s[0], 0, &[0, 0, 0, 0]);
    let mut it = Capabilities::new(d, &h);
    check_walk(|| step(&mut it), h.capabilities_pointer as usize, 0x40, 2, d.len(), |o| (d[o] as u16, d[o + 1] as usize), |_| false, most);
}

/// s = capabilities pointer, header type, vendor and device id, device dependent region: the first structure of the list is
/// what its own bytes decode to
#[no_mangle]
pub fn h_own(s: &[u8]) {
    #[inline(never)]
    fn want<'a>(id: u8, own: &'a [u8], h: &'a Header) -> Option<CapabilityKind<'a>> {
        use CapabilityKind as K;
        Some(match id {
            0x00 => K::NullCapability,
            0x01 => K::PowerManagementInterface(PowerManagementInterface::try_from(own).ok()?),
            0x02 => K::AcceleratedGraphicsPort(AcceleratedGraphicsPort::try_from(own).ok()?),
            0x03 => K::VitalProductData(VitalProductData::try_from(own).ok()?),
            0x04 => K::SlotIdentification(SlotIdentification::try_from(own).ok()?),
            0x05 => K::MessageSignaledInterrups(MessageSignaledInterrups::try_from(own).ok()?),
            0x07 => {
                if matches!(h.header_type, pcics::header::HeaderType::Bridge(_)) {
                    K::PciXBridge(PciXBridge::try_from(own).ok()?)
                } else {
                    K::PciX(PciX::try_from(own).ok()?)
                }
            }
            0x08 => K::Hypertransport(Hypertransport::try_from(own).ok()?),
            0x09 => K::VendorSpecific(VendorSpecific::try_new(own, h).ok()?),
            0x0a => K::DebugPort(DebugPort::try_from(own).ok()?),
            0x0d => K::BridgeSubsystemVendorId(BridgeSubsystemVendorId::try_from(own).ok()?),
            0x10 => K::PciExpress(PciExpress::try_from(own).ok()?),
            0x11 => K::MsiX(MsiX::try_from(own).ok()?),
            0x12 => K::Sata(Sata::try_from(own).ok()?),
            0x13 => K::AdvancedFeatures(AdvancedFeatures::try_from(own).ok()?),
            0x14 => K::EnhancedAllocation(EnhancedAllocation::try_new(own, h).ok()?),
            0x15 => K::FlatteningPortalBridge(FlatteningPortalBridge::try_from(own).ok()?),
            0x06 => K::CompactPciHotSwap(CompactPciHotSwap),
            0x0b => K::CompactPciResourceControl(CompactPciResourceControl),
            0x0c => K::PciHotPlug(PciHotPlug),
            0x0e => K::Agp8x(Agp8x),
            0x0f => K::SecureDevice(SecureDevice),
            v => K::Reserved(v),
        })
    }
    #[inline(never)]
    fn first<'a>(d: &'a [u8], h: &'a Header) -> Option<Option<CapabilityKind<'a>>> {
        match Capabilities::new(d, h).next()? {
            Ok(c) => Some(Some(c.kind)),
            Err(_) => Some(None),
        }
    }
    if s.len() < 6 {
        return;
    }
    let d = &s[6..];
    let h = header(s[0], s[1], &s[2..6]);
    let p = h.capabilities_pointer as usize;
    if p < 0x40 || d.len() < p - 0x40 + 2 {
        return;
    }
    let o = p - 0x40;
    let r = first(d, &h);
    ck!(r.is_some(), "the list has an item");
    let Some(r) = r else { return };
    let w = want(d[o], &d[o + 2..], &h);
    if o > 0 && w.is_some() {
        reach!();
    }
    ck!(r == w, "a structure is decoded from its own bytes");
}

fn ecap_id(c: &ec::ExtendedCapability<'_>) -> u16 {
    if let ec::ExtendedCapabilityKind::Reserved(v) = c.kind {
        if v <= 0x2c {
            return 0xffff;
        }
    }
    c.id()
}
#[inline(never)]
fn estep(it: &mut ExtendedCapabilities<'_>) -> Option<(Item, u8)> {
    use ec::ExtendedCapabilityError::*;
    let mut ver = 0xff;
    let i = match it.next()? {
        Ok(c) => {
            ver = c.version;
            Item::Cap { at: c.offset, id: ecap_id(&c) }
        }
        Err(e) => match e {
            Offset => Item::BadPointer,
            Header { offset } => Item::NoHeader { at: offset },
            EmptyHeader { offset } => Item::Body { at: offset, id: Some(0xffff) },
            Data { offset, .. } => Item::Body { at: offset, id: None },
            RootComplexLinkDeclaration { offset, .. } => Item::Body { at: offset, id: Some(5) },
            MultifunctionVirtualChannel { offset, .. } => Item::Body { at: offset, id: Some(8) },
            SingleRootIoVirtualization { offset, .. } => Item::Body { at: offset, id: Some(0x10) },
            AdvancedErrorReporting { offset, .. } => Item::Body { at: offset, id: Some(1) },
            DownstreamPortContainment { offset, .. } => Item::Body { at: offset, id: Some(0x1d) },
            ResizableBar { offset, .. } => Item::Body { at: offset, id: Some(0x15) },
            DynamicPowerAllocation { offset, .. } => Item::Body { at: offset, id: Some(0x16) },
            ProtocolMultiplexing { offset, .. } => Item::Body { at: offset, id: Some(0x1a) },
            DesignatedVendorSpecificExtendedCapability { offset, .. } => Item::Body { at: offset, id: Some(0x23) },
            VfResizableBar { offset, .. } => Item::Body { at: offset, id: Some(0x24) },
        },
    };
    Some((i, ver))
}
/// s = extended configuration space
#[no_mangle]
pub fn h_ewalk(s: &[u8]) {
    ewalk(s, usize::MAX)
}
/// the first steps in a space of any size, with ids that have no registers
#[no_mangle]
pub fn h_ewalk_far(s: &[u8]) {
    let mut p = 0;
    for _ in 0..2 {
        if s.len() < 4 || p > s.len() - 4 {
            break;
        }
        assume(s[p + 1] == 0x77);
        let q = (r16(s, p + 2) >> 4) as usize;
        if q < 0x100 {
            break;
        }
        p = q - 0x100;
    }
    ewalk(s, 2)
}
#[inline(always)]
fn ewalk(s: &[u8], most: usize) {
    let mut it = ExtendedCapabilities::new(s);
    check_walk(
        || {
            let (i, ver) = estep(&mut it)?;
            if let Item::Cap { at, .. } = i {
                let o = (at as usize).wrapping_sub(0x100);
                if o < s.len() && s.len() - o >= 4 {
                    eq!(ver, s[o + 2] & 15, "version");
                }
            }
            Some(i)
        },
        0x100, 0x100, 4, s.len(),
        |o| (r16(s, o) as u16, (r16(s, o + 2) >> 4) as usize),
        |o| r32(s, o) == 0,
        most,
    );
}

/// the second structure of the list is what its own bytes decode to
#[no_mangle]
pub fn h_eown(s: &[u8]) {
    use ec::*;
    #[inline(never)]
    fn want(all: &[u8]) -> Option<ExtendedCapabilityKind<'_>> {
        use ExtendedCapabilityKind as K;
        let own = &all[4..];
        Some(match r16(all, 0) {
            0x00 => K::Null,
            0x01 => K::AdvancedErrorReporting(own.try_into().ok()?),
            0x02 => K::VirtualChannel(own.try_into().ok()?),
            0x03 => K::DeviceSerialNumber(own.try_into().ok()?),
            0x04 => K::PowerBudgeting(own.try_into().ok()?),
            0x05 => K::RootComplexLinkDeclaration(own.try_into().ok()?),
            0x06 => K::RootComplexInternalLinkControl(own.try_into().ok()?),
            0x07 => K::RootComplexEventCollectorEndpointAssociation(own.try_into().ok()?),
            0x08 => K::MultifunctionVirtualChannel(all.try_into().ok()?),
            0x09 => K::VirtualChannelMfvcPresent(own.try_into().ok()?),
            0x0a => K::RootComplexRegisterBlockHeader(all.try_into().ok()?),
            0x0b => K::VendorSpecificExtendedCapability(own.try_into().ok()?),
            0x0c => K::ConfigurationAccessCorrelation(all.try_into().ok()?),
            0x0d => K::AccessControlServices(own.try_into().ok()?),
            0x0e => K::AlternativeRoutingIdInterpretation(own.try_into().ok()?),
            0x0f => K::AddressTranslationServices(own.try_into().ok()?),
            0x10 => K::SingleRootIoVirtualization(own.try_into().ok()?),
            0x11 => K::MultiRootIoVirtualization(MultiRootIoVirtualization),
            0x12 => K::Multicast(all.try_into().ok()?),
            0x13 => K::PageRequestInterface(own.try_into().ok()?),
            0x14 => K::ReservedForAmd(ReservedForAmd),
            0x15 => K::ResizableBar(all.try_into().ok()?),
            0x16 => K::DynamicPowerAllocation(all.try_into().ok()?),
            0x17 => K::TphRequester(own.try_into().ok()?),
            0x18 => K::LatencyToleranceReporting(own.try_into().ok()?),
            0x19 => K::SecondaryPciExpress(own.try_into().ok()?),
            0x1a => K::ProtocolMultiplexing(all.try_into().ok()?),
            0x1b => K::ProcessAddressSpaceId(own.try_into().ok()?),
            0x1c => K::LnRequester(all.try_into().ok()?),
            0x1d => K::DownstreamPortContainment(own.try_into().ok()?),
            0x1e => K::L1PmSubstates(own.try_into().ok()?),
            0x1f => K::PrecisionTimeMeasurement(own.try_into().ok()?),
            0x20 => K::PciExpressOverMphy(all.try_into().ok()?),
            0x21 => K::FrsQueuing(all.try_into().ok()?),
            0x22 => K::ReadinessTimeReporting(all.try_into().ok()?),
            0x23 => K::DesignatedVendorSpecificExtendedCapability(all.try_into().ok()?),
            0x24 => K::VfResizableBar(all.try_into().ok()?),
            0x25 => K::DataLinkFeature(DataLinkFeature),
            0x26 => K::PhysicalLayer16GTps(PhysicalLayer16GTps),
            0x27 => K::LaneMarginingAtTheReceiver(LaneMarginingAtTheReceiver),
            0x28 => K::HierarchyId(HierarchyId),
            0x29 => K::NativePcieEnclosureManagement(NativePcieEnclosureManagement),
            0x2a => K::PhysicalLayer32GTps(PhysicalLayer32GTps),
            0x2b => K::AlternateProtocol(AlternateProtocol),
            0x2c => K::SystemFirmwareIntermediary(SystemFirmwareIntermediary),
            v => K::Reserved(v as u16),
        })
    }
    #[inline(never)]
    fn second(s: &[u8]) -> Option<(u16, Option<ExtendedCapabilityKind<'_>>)> {
        let mut it = ExtendedCapabilities::new(s);
        it.next()?.ok()?;
        match it.next()? {
            Ok(c) => Some((c.id(), Some(c.kind))),
            Err(_) => Some((0, None)),
        }
    }
    if s.len() < 8 || r16(s, 0) != 0 {
        return;
    }
    let p = (r16(s, 2) >> 4) as usize;
    if p < 0x104 || s.len() < p - 0x100 + 4 || r32(s, p - 0x100) == 0 {
        return;
    }
    let o = p - 0x100;
    let r = second(s);
    ck!(r.is_some(), "the list has a second item");
    let Some((id, r)) = r else { return };
    ck!(r.is_none() || u64::from(id) == r16(s, o), "an item's id is the one in its header");
    let w = want(&s[o..]);
    if o > 4 && w.is_some() {
        reach!();
    }
    ck!(r == w, "a structure is decoded from its own bytes");
}
