//! Where there is more than one conversion for the same thing, they agree
use crate::util::*;
use pcics::capabilities::bridge_subsystem_vendor_id::BridgeSubsystemVendorId;
use pcics::capabilities::flattening_portal_bridge::FlatteningPortalBridge;
use pcics::capabilities::hypertransport::{HostOrSecondaryInterface, Hypertransport, MsiMapping, SlaveOrPrimaryInterface};
use pcics::capabilities::msi_x::MsiX;
use pcics::capabilities::pci_express::SlotPowerLimit;
use pcics::extended_capabilities::configuration_access_correlation::ConfigurationAccessCorrelation;
use pcics::extended_capabilities::ln_requester::LnRequester;
use pcics::extended_capabilities::multifunction_virtual_channel as mf;
use pcics::extended_capabilities::root_complex_event_collector_endpoint_association::RootComplexEventCollectorEndpointAssociation;
use pcics::extended_capabilities::root_complex_internal_link_control::RootComplexInternalLinkControl;
use pcics::extended_capabilities::root_complex_register_block_header::RootComplexRegisterBlockHeader;
use pcics::extended_capabilities::single_root_io_virtualization::SingleRootIoVirtualization;
use pcics::extended_capabilities::virtual_channel as vc;
use pcics::header::{ExpansionRom, HeaderType, IoAccessAddressRange};
use pcics::Header;

/// a fixed-size array, a slice of that size and a longer slice give the same structure
macro_rules! ways {
    ($h:ident, $t:ty, $n:ident) => {
        #[no_mangle]
        pub fn $h(s: &[u8]) {
            #[inline(never)]
            fn array(a: [u8; <$t>::$n]) -> $t {
                a.into()
            }
            #[inline(never)]
            fn slice(s: &[u8]) -> Option<$t> {
                <$t>::try_from(s).ok()
            }
            let Some(a) = s.get(..<$t>::$n) else { return };
            let a: [u8; <$t>::$n] = match a.try_into() {
                Ok(a) => a,
                Err(_) => return,
            };
            let want = Some(array(a));
            ck!(slice(&a) == want, "from a slice as from an array");
            ck!(slice(s) == want, "from a longer slice as from an array");
            reach!();
        }
    };
}
ways!(h_ways_header, Header, TOTAL_SIZE);
ways!(h_ways_ssvid, BridgeSubsystemVendorId, SIZE);
ways!(h_ways_fpb, FlatteningPortalBridge, SIZE);
ways!(h_ways_msix, MsiX, SIZE);
ways!(h_ways_cac, ConfigurationAccessCorrelation, SIZE);
ways!(h_ways_lnr, LnRequester, SIZE);
ways!(h_ways_sriov, SingleRootIoVirtualization, BYTES);
ways!(h_ways_rcil, RootComplexInternalLinkControl, SIZE);
ways!(h_ways_rcrb, RootComplexRegisterBlockHeader, SIZE);
ways!(h_ways_rcec, RootComplexEventCollectorEndpointAssociation, SIZE);

/// the blocks of the HyperTransport capability on their own and as the capability
#[no_mangle]
pub fn h_ways_ht(s: &[u8]) {
    #[inline(never)]
    fn whole(s: &[u8]) -> Option<Hypertransport> {
        Hypertransport::try_from(s).ok()
    }
    match whole(s) {
        Some(Hypertransport::SlaveOrPrimaryInterface(v)) => {
            let Some(a) = s.first_chunk::<{ SlaveOrPrimaryInterface::SIZE }>() else { return };
            ck!(v == SlaveOrPrimaryInterface::from(*a), "slave or primary interface");
            reach!();
        }
        Some(Hypertransport::HostOrSecondaryInterface(v)) => {
            let Some(a) = s.first_chunk::<{ HostOrSecondaryInterface::SIZE }>() else { return };
            ck!(v == HostOrSecondaryInterface::from(*a), "host or secondary interface");
            reach!();
        }
        Some(Hypertransport::MsiMapping(v)) => {
            let Some(a) = s.first_chunk::<{ MsiMapping::SIZE }>() else { return };
            ck!(v == MsiMapping::from(*a), "MSI mapping");
            reach!();
        }
        _ => (),
    }
}

/// a channel on its own and out of the list
#[no_mangle]
pub fn h_ways_channel(s: &[u8]) {
    let Some(a) = s.first_chunk::<{ vc::ExtendedVirtualChannel::SIZE }>() else { return };
    if let Some(Ok(v)) = vc::ExtendedVirtualChannels::new(s, 1).next() {
        ck!(v == vc::ExtendedVirtualChannel::from(*a), "virtual channel");
        reach!();
    }
    if let Some(v) = mf::ExtendedVirtualChannels::new(s, 1, 1).next() {
        let Some(a) = s.get(16..).unwrap_or(&[]).first_chunk::<{ mf::ExtendedVirtualChannel::SIZE }>() else { return };
        let w = mf::ExtendedVirtualChannel::from(*a);
        ck!(v.vc_resource_capability == w.vc_resource_capability && v.vc_resource_control == w.vc_resource_control && v.vc_resource_status == w.vc_resource_status,
            "virtual channel of a multi-function device");
        reach!();
    }
}

/// by value or by reference, flat or nested, into a wider integer
#[no_mangle]
pub fn h_ways_values(s: &[u8]) {
    if s.len() < 8 {
        return;
    }
    let [a, b, c, d] = [0, 2, 4, 6].map(|i| r16(s, i) as u16);
    ck!(IoAccessAddressRange::from([a, b, c, d]) == IoAccessAddressRange::from([[a, b], [c, d]]), "I/O range");
    let rom = ExpansionRom::from(r32(s, 0) as u32);
    eq!(u64::from(rom.clone()), u32::from(rom) as u64, "expansion ROM");
    let l = SlotPowerLimit::new(s[0], s[1] & 3);
    eq!(f32::from(&l).to_bits(), f32::from(l).to_bits(), "power limit");
    let t = HeaderType::Reserved(s[0]);
    eq!(u8::from(&t), s[0], "header type");
    eq!(u8::from(t), s[0], "header type");
    reach!();
}
