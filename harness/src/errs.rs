//! A structure that does not decode is reported with its own failure, at its own position.
use crate::util::*;
use pcics::capabilities::*;
use pcics::extended_capabilities as ec;
use pcics::header::HeaderType;
use pcics::{Capabilities, ExtendedCapabilities, Header};

/// s = capabilities pointer, header type, vendor and device id, device dependent region
#[no_mangle]
pub fn h_own_err(s: &[u8]) {
    use CapabilityError as E;
    #[inline(never)]
    fn want(id: u8, own: &[u8], h: &Header, ptr: u8) -> Option<CapabilityError> {
        Some(match id {
            0x01 => E::Data { ptr, source: PowerManagementInterface::try_from(own).err()? },
            0x02 => E::Data { ptr, source: AcceleratedGraphicsPort::try_from(own).err()? },
            0x03 => E::Data { ptr, source: VitalProductData::try_from(own).err()? },
            0x04 => E::Data { ptr, source: SlotIdentification::try_from(own).err()? },
            0x05 => E::MessageSignaledInterrups { ptr, source: MessageSignaledInterrups::try_from(own).err()? },
            0x07 => {
                if matches!(h.header_type, HeaderType::Bridge(_)) {
                    E::PciXBridge { ptr, source: PciXBridge::try_from(own).err()? }
                } else {
                    E::PciX { ptr, source: PciX::try_from(own).err()? }
                }
            }
            0x08 => E::Hypertransport { ptr, source: Hypertransport::try_from(own).err()? },
            0x09 => E::VendorSpecific { ptr, source: VendorSpecific::try_new(own, h).err()? },
            0x0a => E::Data { ptr, source: DebugPort::try_from(own).err()? },
            0x0d => E::Data { ptr, source: BridgeSubsystemVendorId::try_from(own).err()? },
            0x10 => E::PciExpress { ptr, source: PciExpress::try_from(own).err()? },
            0x11 => E::Data { ptr, source: MsiX::try_from(own).err()? },
            0x12 => E::Data { ptr, source: Sata::try_from(own).err()? },
            0x13 => E::Data { ptr, source: AdvancedFeatures::try_from(own).err()? },
            0x14 => E::EnhancedAllocation { ptr, source: EnhancedAllocation::try_new(own, h).err()? },
            0x15 => E::Data { ptr, source: FlatteningPortalBridge::try_from(own).err()? },
            _ => return None,
        })
    }
    #[inline(never)]
    fn first(d: &[u8], h: &Header) -> Option<CapabilityError> {
        Capabilities::new(d, h).next()?.err()
    }
    if s.len() < 6 {
        return;
    }
    let d = &s[6..];
    let mut hb = [0u8; 64];
    hb[..4].copy_from_slice(&s[2..6]);
    hb[0x0e] = s[1];
    hb[0x34] = s[0];
    hb[0x14] = s[0];
    let h: Header = hb.into();
    let p = h.capabilities_pointer as usize;
    if p < 0x40 || d.len() < p - 0x40 + 2 {
        return;
    }
    let o = p - 0x40;
    let (r, w) = (first(d, &h), want(d[o], &d[o + 2..], &h, p as u8));
    if w.is_some() {
        reach!();
    }
    eq!(r, w, "the failure reported is the structure's own");
}

/// s = extended configuration space
#[no_mangle]
pub fn h_eown_err(s: &[u8]) {
    use ec::*;
    use ExtendedCapabilityError as E;
    #[inline(never)]
    fn want(all: &[u8], offset: u16) -> Option<ExtendedCapabilityError> {
        let own = &all[4..];
        Some(match r16(all, 0) {
            0x01 => E::AdvancedErrorReporting { offset, source: AdvancedErrorReporting::try_from(own).err()? },
            0x02 | 0x09 => E::Data { offset, source: VirtualChannel::try_from(own).err()? },
            0x03 => E::Data { offset, source: DeviceSerialNumber::try_from(own).err()? },
            0x04 => E::Data { offset, source: PowerBudgeting::try_from(own).err()? },
            0x05 => E::RootComplexLinkDeclaration { offset, source: RootComplexLinkDeclaration::try_from(own).err()? },
            0x06 => E::Data { offset, source: RootComplexInternalLinkControl::try_from(own).err()? },
            0x07 => E::Data { offset, source: RootComplexEventCollectorEndpointAssociation::try_from(own).err()? },
            0x08 => E::MultifunctionVirtualChannel { offset, source: MultifunctionVirtualChannel::try_from(all).err()? },
            0x0a => E::Data { offset, source: RootComplexRegisterBlockHeader::try_from(all).err()? },
            0x0b => E::Data { offset, source: VendorSpecificExtendedCapability::try_from(own).err()? },
            0x0c => E::Data { offset, source: ConfigurationAccessCorrelation::try_from(all).err()? },
            0x0d => E::Data { offset, source: AccessControlServices::try_from(own).err()? },
            0x0e => E::Data { offset, source: AlternativeRoutingIdInterpretation::try_from(own).err()? },
            0x0f => E::Data { offset, source: AddressTranslationServices::try_from(own).err()? },
            0x10 => E::Data { offset, source: SingleRootIoVirtualization::try_from(own).err()? },
            0x12 => E::Data { offset, source: Multicast::try_from(all).err()? },
            0x13 => E::Data { offset, source: PageRequestInterface::try_from(own).err()? },
            0x15 => E::ResizableBar { offset, source: ResizableBar::try_from(all).err()? },
            0x16 => E::DynamicPowerAllocation { offset, source: DynamicPowerAllocation::try_from(all).err()? },
            0x17 => E::Data { offset, source: TphRequester::try_from(own).err()? },
            0x18 => E::Data { offset, source: LatencyToleranceReporting::try_from(own).err()? },
            0x19 => E::Data { offset, source: SecondaryPciExpress::try_from(own).err()? },
            0x1a => E::ProtocolMultiplexing { offset, source: ProtocolMultiplexing::try_from(all).err()? },
            0x1b => E::Data { offset, source: ProcessAddressSpaceId::try_from(own).err()? },
            0x1c => E::Data { offset, source: LnRequester::try_from(all).err()? },
            0x1d => E::DownstreamPortContainment { offset, source: DownstreamPortContainment::try_from(own).err()? },
            0x1e => E::Data { offset, source: L1PmSubstates::try_from(own).err()? },
            0x1f => E::Data { offset, source: PrecisionTimeMeasurement::try_from(own).err()? },
            0x20 => E::Data { offset, source: PciExpressOverMphy::try_from(all).err()? },
            0x21 => E::Data { offset, source: FrsQueuing::try_from(all).err()? },
            0x22 => E::Data { offset, source: ReadinessTimeReporting::try_from(all).err()? },
            0x23 => E::DesignatedVendorSpecificExtendedCapability { offset, source: DesignatedVendorSpecificExtendedCapability::try_from(all).err()? },
            0x24 => E::VfResizableBar { offset, source: VfResizableBar::try_from(all).err()? },
            _ => return None,
        })
    }
    #[inline(never)]
    fn second(s: &[u8]) -> Option<ExtendedCapabilityError> {
        let mut it = ExtendedCapabilities::new(s);
        it.next();
        it.next()?.err()
    }
    if s.len() < 8 || r16(s, 0) != 0 {
        return;
    }
    let p = (r16(s, 2) >> 4) as usize;
    if p < 0x104 || s.len() < p - 0x100 + 4 || r32(s, p - 0x100) == 0 {
        return;
    }
    let (r, w) = (second(s), want(&s[p - 0x100..], p as u16));
    if w.is_some() {
        reach!();
    }
    eq!(r, w, "the failure reported is the structure's own");
}
